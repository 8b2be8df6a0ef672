// Package verif is the harness API. During solver-based checking every
// function here is interpreted symbolically by the engine (inputs become SMT
// variables, Assert becomes a query). Compiled natively, the same harness
// replays one solver model: inputs are read from a model file.
package verif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
)

type Input struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type Obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

// Job is one native execution of a harness.
type Job struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []Input        `json:"inputs"`
}

// Outcome is what a native execution did.
type Outcome struct {
	Status string   `json:"status"` // ok, assert, assume, panic
	Msg    string   `json:"msg"`
	Obs    []Obs    `json:"obs"`
	Reach  []string `json:"reach"`
	Alloc  uint64   `json:"alloc"`
}

type (
	assertFail struct{ msg string }
	assumeFail struct{}
)

var (
	vals   map[string]uint64
	cnt    map[string]int
	params map[string]int
	obs    []Obs
	reach  []string
	tools  = map[string]func(){}
)

func get(label string, w int) uint64 {
	n := cnt[label]
	cnt[label] = n + 1
	name := fmt.Sprintf("%s#%d", label, n)
	if w != 8 {
		name = fmt.Sprintf("%s/%d", name, w)
	}
	return vals[name]
}

func Byte(label string) byte     { return byte(get(label, 8)) }
func Bool(label string) bool     { return get(label, 0) != 0 }
func Uint16(label string) uint16 { return uint16(get(label, 16)) }
func Uint32(label string) uint32 { return uint32(get(label, 32)) }
func Rune(label string) rune     { return rune(uint32(get(label, 32))) }
func Uint64(label string) uint64 { return get(label, 64) }
func Int64(label string) int64   { return int64(get(label, 64)) }
func AnyInt(label string) int    { return int(get(label, 64)) }

// Int is any integer in [lo,hi].
func Int(label string, lo, hi int) int {
	if lo > hi {
		panic(assumeFail{})
	}
	var v int
	if lo >= 0 && hi < 256 {
		v = int(get(label, 8))
	} else {
		v = int(get(label, 64))
	}
	Assume(v >= lo && v <= hi)
	return v
}

// Choose is any integer in [0,n); the engine explores each value separately.
func Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(get(label, 8))
	Assume(v < n)
	return v
}

func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(label)
	}
	return b
}

func String(label string, n int) string { return string(Bytes(label, n)) }

// StringIn is any string of n bytes drawn from set.
func StringIn(label string, n int, set string) string {
	b := Bytes(label, n)
	for _, c := range b {
		Assume(In(c, set))
	}
	return string(b)
}

func In(b byte, set string) bool  { return strings.IndexByte(set, b) >= 0 }
func And(a, b bool) bool          { return a && b }
func Or(a, b bool) bool           { return a || b }
func Implies(a, b bool) bool      { return !a || b }
func Contains(s, sub string) bool { return strings.Contains(s, sub) }
func Symbolic() bool              { return false }
func OpaqueNumbers(on bool)       {}

// OpaqueQuotes makes the engine format a symbolic string as ? where %q is asked
// for, which is sound when the text, of an error say, decides nothing.
func OpaqueQuotes(on bool) {}

// Concurrently runs f and g at the same time. The engine decides whether they
// could touch the same memory; here they really run so.
func Concurrently(f, g func()) {
	start := make(chan struct{})
	done := make(chan any, 2)
	for _, h := range []func(){f, g} {
		h := h
		go func() {
			defer func() { done <- recover() }()
			<-start
			h()
		}()
	}
	close(start)
	for i := 0; i < 2; i++ {
		if r := <-done; r != nil {
			defer panic(r)
		}
	}
}

func PermuteMaps(on bool)             {}
func Concrete(n int) int              { return n }
func ConcreteStr(s string) string     { return s }
func Reach(label string)              { reach = append(reach, label) }
func ObserveS(label string, v string) { obs = append(obs, Obs{label, fmt.Sprintf("%q", v)}) }
func ObserveI(label string, v int)    { obs = append(obs, Obs{label, fmt.Sprint(v)}) }
func ObserveB(label string, v bool)   { obs = append(obs, Obs{label, fmt.Sprint(v)}) }

func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(assertFail{msg})
	}
}

func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// Result is the observable outcome of one command-line tool run.
type Result struct {
	Code   int
	Stdout string
	Stderr string
	Panic  string
}

// Tool runs a command-line tool in the current directory. limit is the
// largest file size the system lets it write (-1: no limit).
func Tool(name string, execute func(), args []string, stdin string, limit int) Result {
	c, o, e, p := runTool(name, execute, args, stdin, limit)
	return Result{c, o, e, p}
}

func runTool(name string, execute func(), args []string, stdin string, limit int) (int, string, string, string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "ZZVERIF_TOOL="+name, fmt.Sprintf("ZZVERIF_LIMIT=%d", limit))
	cmd.Stdin = strings.NewReader(stdin)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	code := 0
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else {
			panic(err)
		}
	}
	pan := ""
	if s := se.String(); strings.HasPrefix(s, "panic: ") || strings.Contains(s, "\npanic: ") || strings.Contains(s, "fatal error: ") {
		pan = s
	}
	return code, so.String(), se.String(), pan
}

// ToolMain is called first by the native runner: in a re-executed child it
// runs the requested command-line tool instead.
func ToolMain(t map[string]func()) {
	name := os.Getenv("ZZVERIF_TOOL")
	if name == "" {
		return
	}
	var lim int64 = -1
	fmt.Sscan(os.Getenv("ZZVERIF_LIMIT"), &lim)
	if lim >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		l := syscall.Rlimit{Cur: uint64(lim), Max: uint64(lim)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			panic(err)
		}
	}
	os.Unsetenv("ZZVERIF_TOOL")
	os.Unsetenv("ZZVERIF_LIMIT")
	t[name]()
	os.Exit(0)
}

// FileLimit is the size that files cannot be made larger than from now on
// (-1: any size).
func FileLimit(n int) {
	l := syscall.Rlimit{Cur: ^uint64(0), Max: ^uint64(0)}
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	if n >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

func runJob(j *Job, f func()) (out Outcome) {
	defer FileLimit(-1)
	vals, cnt, params = map[string]uint64{}, map[string]int{}, j.Params
	obs, reach = nil, nil
	for _, in := range j.Inputs {
		vals[in.Name] = in.Val
	}
	defer func() {
		out.Obs, out.Reach = obs, reach
		if r := recover(); r != nil {
			switch p := r.(type) {
			case assertFail:
				out.Status, out.Msg = "assert", p.msg
			case assumeFail:
				out.Status = "assume"
			default:
				out.Status, out.Msg = "panic", fmt.Sprint(r)
			}
		}
	}()
	f()
	return Outcome{Status: "ok"}
}

// NativeMain replays the jobs in the file os.Args[1], writing one outcome
// line per job to os.Args[2] as it goes.
func NativeMain(harnesses map[string]func()) {
	debug.SetMaxStack(256 << 20)
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var jobs []Job
	if err := json.Unmarshal(data, &jobs); err != nil {
		panic(err)
	}
	w, err := os.OpenFile(os.Args[2], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	so, se := os.Stdout, os.Stderr
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	for i := range jobs {
		f := harnesses[jobs[i].Harness]
		if f == nil {
			panic("no harness " + jobs[i].Harness)
		}
		dir, err := os.MkdirTemp("", "zzverif")
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		os.Stdout, os.Stderr = null, null
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		out := runJob(&jobs[i], f)
		runtime.ReadMemStats(&m1)
		out.Alloc = m1.TotalAlloc - m0.TotalAlloc
		os.Stdout, os.Stderr = so, se
		os.Chdir("/")
		os.RemoveAll(dir)
		b, _ := json.Marshal(out)
		if _, err := w.Write(append(b, '\n')); err != nil {
			panic(err)
		}
	}
}
