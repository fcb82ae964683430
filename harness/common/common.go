package PKG

// Shared part of the replay harness: reads behaviours generated from the TLA+ specifications,
// steps them through the real code and reports every deviation.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

type vObj = map[string]any

type vStep struct {
	A vObj `json:"a"`
	O any  `json:"o"`
	T vObj `json:"t"`
}

type vWalk struct {
	ID    int     `json:"id"`
	Init  vObj    `json:"init"`
	Steps []vStep `json:"steps"`
}

type vViolation struct {
	Walk int    `json:"walk"`
	Step int    `json:"step"`
	Msg  string `json:"msg"`
	Hist any    `json:"hist,omitempty"`
}

type vResult struct {
	Violations []vViolation   `json:"violations"`
	Walks      int            `json:"walks"`
	Steps      int            `json:"steps"`
	Stats      map[string]int `json:"stats"`
	Samples    []any          `json:"samples"`
	Error      string         `json:"error,omitempty"`
	Done       bool           `json:"done"`
}

type vRunner struct {
	t   *testing.T
	mu  sync.Mutex
	res vResult
	cur struct{ walk, step int }

	pf   *os.File
	pbuf bytes.Buffer
}

// vViolationPanic carries a deviation out of the middle of a walk.
type vViolationPanic struct{ msg string }

// vFail reports that the real code deviated from the specification.
func vFail(format string, args ...any) {
	panic(vViolationPanic{fmt.Sprintf(format, args...)})
}

// vHarness aborts: the harness itself could not do its work.
type vHarnessPanic struct{ msg string }

func vHarness(format string, args ...any) {
	panic(vHarnessPanic{fmt.Sprintf(format, args...)})
}

func vMust(err error) {
	if err != nil {
		vHarness("%v\n%s", err, debug.Stack())
	}
}

func vMust1[T any](v T, err error) T {
	vMust(err)
	return v
}

func (r *vRunner) stat(name string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.res.Stats == nil {
		r.res.Stats = make(map[string]int)
	}
	r.res.Stats[name]++
}

func (r *vRunner) progress() {
	if r.pf == nil {
		f, err := os.Create(os.Getenv("VERIF_PROGRESS"))
		if err != nil {
			r.t.Fatal(err)
		}
		r.pf = f
	}
	fmt.Fprintf(&r.pbuf, "{\"walk\": %6d, \"step\": %6d, \"done\": %6d, \"steps\": %9d}", r.cur.walk, r.cur.step, r.res.Walks, r.res.Steps)
	r.pf.WriteAt(r.pbuf.Bytes(), 0)
	r.pbuf.Reset()
}

func (r *vRunner) save() {
	r.mu.Lock()
	defer r.mu.Unlock()
	b, err := json.Marshal(r.res)
	if err != nil {
		r.t.Fatal(err)
	}
	tmp := os.Getenv("VERIF_RESULT") + ".tmp"
	if err := os.WriteFile(tmp, b, 0o600); err != nil {
		r.t.Fatal(err)
	}
	if err := os.Rename(tmp, os.Getenv("VERIF_RESULT")); err != nil {
		r.t.Fatal(err)
	}
}

// vRun replays all walks. f runs one of them, calling step(i) before each step.
func vRun(t *testing.T, f func(r *vRunner, w vWalk, step func(i int))) {
	b, err := os.ReadFile(os.Getenv("VERIF_WALKS"))
	if err != nil {
		t.Skip("no behaviours")
	}
	var walks []vWalk
	if err := json.Unmarshal(b, &walks); err != nil {
		t.Fatal(err)
	}
	r := &vRunner{t: t}
	limit := 3
	for _, w := range walks {
		r.cur.walk, r.cur.step = w.ID, 0
		r.progress()
		ok := r.one(w, f)
		r.res.Walks++
		if len(r.res.Samples) < 1 && ok {
			r.res.Samples = append(r.res.Samples, vObj{"walk": w.ID, "steps": vBrief(w)})
		}
		if r.res.Error != "" {
			break
		}
		if len(r.res.Violations) >= limit {
			break
		}
	}
	r.res.Done = true
	r.save()
}

func vBrief(w vWalk) []string {
	var out []string
	for i, s := range w.Steps {
		if i >= 12 {
			out = append(out, "...")
			break
		}
		out = append(out, vJSON(s.A)+" => "+vJSON(s.O))
	}
	return out
}

func (r *vRunner) one(w vWalk, f func(r *vRunner, w vWalk, step func(i int))) (ok bool) {
	step := 0
	defer func() {
		switch e := recover().(type) {
		case nil:
			ok = true
		case vViolationPanic:
			var hist []string
			for i := 0; i <= step && i < len(w.Steps); i++ {
				hist = append(hist, vJSON(w.Steps[i].A)+" => "+vJSON(w.Steps[i].O))
			}
			r.res.Violations = append(r.res.Violations, vViolation{Walk: w.ID, Step: step, Msg: e.msg, Hist: hist})
		case vHarnessPanic:
			r.res.Error = fmt.Sprintf("walk %d step %d: %s", w.ID, step, e.msg)
		default:
			st := string(debug.Stack())
			// Whose panic? Look at the frame that panicked.
			if vPanicInCode(st) {
				r.res.Violations = append(r.res.Violations, vViolation{Walk: w.ID, Step: step, Msg: fmt.Sprintf("panic in the code: %v", e), Hist: st})
				return
			}
			r.res.Error = fmt.Sprintf("walk %d step %d: harness panic: %v\n%s", w.ID, step, e, st)
		}
	}()
	done := make(chan struct{})
	defer close(done)
	r.res.Steps += 0
	f(r, w, func(i int) {
		step = i
		r.cur.step = i
		r.res.Steps++
		r.progress()
	})
	return
}

func vPanicInCode(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(st[i:], "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "/") {
			continue
		}
		if strings.Contains(l, "/src/runtime/") {
			continue
		}
		if strings.Contains(l, "/zz_verif_") {
			return false
		}
		if strings.Contains(l, "/repo/") {
			return true
		}
	}
	return false
}

func vJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%v", v)
	}
	return string(b)
}

// Accessors for JSON values produced by TLC.

func (s vStep) op() string { return vStr(s.A["op"]) }

func vStr(v any) string {
	s, ok := v.(string)
	if !ok {
		vHarness("not a string: %v", v)
	}
	return s
}

func vInt(v any) int {
	f, ok := v.(float64)
	if !ok {
		vHarness("not a number: %v", v)
	}
	return int(f)
}

func vBool(v any) bool {
	b, ok := v.(bool)
	if !ok {
		vHarness("not a boolean: %v", v)
	}
	return b
}

func vList(v any) []any {
	l, ok := v.([]any)
	if !ok {
		vHarness("not a list: %v", v)
	}
	return l
}

func vStrs(v any) []string {
	out := []string{}
	for _, e := range vList(v) {
		out = append(out, vStr(e))
	}
	return out
}

func vMap(v any) vObj {
	m, ok := v.(map[string]any)
	if !ok {
		vHarness("not a record: %v", v)
	}
	return m
}

// vSame compares JSON-like values, numbers by value.
func vSame(a, b any) bool { return reflect.DeepEqual(vNorm(a), vNorm(b)) }

func vNorm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return v
	}
	var out any
	json.Unmarshal(b, &out)
	return out
}

func vSorted(l []string) []string {
	out := append([]string{}, l...)
	sort.Strings(out)
	return out
}

var vDirCount int

// vTempDir makes a new directory below the scratch directory of this run.
func vTempDir() string {
	vDirCount++
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		vHarness("VERIF_SCRATCH is not set")
	}
	d := filepath.Join(base, fmt.Sprintf("d%06d", vDirCount))
	vMust(os.MkdirAll(d, 0o700))
	return d
}

// vWait polls until f is true or the (real) time is up.
func vWait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}
