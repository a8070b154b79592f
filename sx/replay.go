package sx

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// NativeObs is an observation of the native run.
type NativeObs struct {
	Label string `json:"l"`
	Kind  string `json:"k"`
	Val   string `json:"v"`
}

// NativeResult is the outcome of a native run.
type NativeResult struct {
	Done         bool        `json:"done"`
	AssumeFailed bool        `json:"assume_failed"`
	Fail         []string    `json:"fail"`
	Panic        string      `json:"panic"`
	Obs          []NativeObs `json:"obs"`
	Reached      []string    `json:"reached"`
	Notes        []string    `json:"notes"`
	Hang         bool        `json:"hang"`
}

// Runner replays inputs on the compiled harness.
type Runner struct {
	Bin     string
	Dir     string
	Timeout time.Duration
	n       atomic.Int64
	Runs    atomic.Int64
}

// BuildRunner compiles the harness package together with the code under test.
func BuildRunner(repoDir, mod, pkg, work string, ov map[string][]byte, entries []string) (*Runner, error) {
	src := filepath.Join(work, "src")
	repl := map[string]string{}
	for p, b := range ov {
		f := filepath.Join(src, strings.ReplaceAll(strings.TrimPrefix(p, "/"), "/", "_"))
		os.MkdirAll(src, 0o755)
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		repl[p] = f
	}
	var mb bytes.Buffer
	fmt.Fprintf(&mb, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", mod+"/zzverif/"+pkg, mod+"/zzverif/sym")
	for _, e := range entries {
		fmt.Fprintf(&mb, "\t\t%q: h.%s,\n", e, e)
	}
	mb.WriteString("\t})\n}\n")
	mf := filepath.Join(src, "zz_main.go")
	if err := os.WriteFile(mf, mb.Bytes(), 0o644); err != nil {
		return nil, err
	}
	repl[filepath.Join(repoDir, "zzverif", "zzmain", "main.go")] = mf
	oj, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(work, "runner")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./zzverif/zzmain")
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building the native runner: %v\n%s", err, out)
	}
	return &Runner{Bin: bin, Dir: work, Timeout: 20 * time.Second}, nil
}

// Run replays one assignment.
func (r *Runner) Run(entry string, tier int, vals map[string]string) (*NativeResult, error) {
	return r.RunFile("", entry, tier, vals)
}

func (r *Runner) RunFile(file, entry string, tier int, vals map[string]string) (*NativeResult, error) {
	r.Runs.Add(1)
	if file == "" {
		b, _ := json.Marshal(map[string]any{"entry": entry, "tier": tier, "values": vals})
		file = filepath.Join(r.Dir, fmt.Sprintf("in%d.json", r.n.Add(1)))
		if err := os.WriteFile(file, b, 0o644); err != nil {
			return nil, err
		}
		defer os.Remove(file)
	}
	scratch := filepath.Join(r.Dir, fmt.Sprintf("scratch%d", r.n.Add(1)))
	os.MkdirAll(scratch, 0o755)
	defer os.RemoveAll(scratch)
	ctx, cancel := context.WithTimeout(context.Background(), r.Timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 12000000; exec \"$0\" \"$1\"", r.Bin, file)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "SYM_SCRATCH="+scratch)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	if ctx.Err() != nil {
		return &NativeResult{Panic: fmt.Sprintf("no result within %v (hang)", r.Timeout), Hang: true}, nil
	}
	s := out.String()
	if i := strings.LastIndex(s, "@@RESULT "); i >= 0 {
		var res NativeResult
		if e := json.Unmarshal([]byte(strings.TrimSpace(s[i+9:])), &res); e != nil {
			return nil, e
		}
		return &res, nil
	}
	es := errb.String()
	if strings.Contains(es, "stack overflow") || strings.Contains(es, "out of memory") || strings.Contains(es, "fatal error") {
		if len(es) > 400 {
			es = es[:400]
		}
		return &NativeResult{Panic: es}, nil
	}
	if err != nil && strings.Contains(err.Error(), "signal") {
		return &NativeResult{Panic: "killed: " + err.Error()}, nil
	}
	if len(es) > 600 {
		es = es[:600]
	}
	return nil, fmt.Errorf("runner gave no result: %v %s", err, es)
}

// values renders the inputs under a model.
func (ex *Explorer) values(ins []Input, md map[string]VarVal) map[string]string {
	r := map[string]string{}
	for _, in := range ins {
		switch in.Kind {
		case "int":
			r[in.Name] = strconv.FormatInt(in.Lo+int64(md[in.v.name].N), 10)
		case "float":
			q := md[in.v.name].R
			if q == nil {
				q = ratZero
				if in.v.lo > 0 || in.v.hi < 0 {
					q = ratFromFloat(in.v.lo)
				}
			}
			r[in.Name] = strconv.FormatFloat(roundGrid(q, int(in.v.grid), in.v.lo, in.v.hi), 'g', -1, 64)
		}
	}
	return r
}

func roundGrid(q *big.Rat, g int, lo, hi float64) float64 {
	s := new(big.Rat).Mul(q, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(g))))
	f, _ := s.Float64()
	v := math.Round(f) / math.Ldexp(1, g)
	if v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	return v
}

// differs compares a symbolic observation under a model with the native one.
func (o obs) differs(ev *evaluator, n NativeObs) string {
	if o.label != n.Label {
		return fmt.Sprintf("label %q natively, %q symbolically", n.Label, o.label)
	}
	switch o.kind {
	case "f":
		var f float64
		if t, ok := o.v.p.(*Term); ok {
			f, _ = ev.R(t).Float64()
		} else {
			f = o.v.f64()
		}
		g, _ := strconv.ParseFloat(n.Val, 64)
		if math.Abs(f-g) > 1e-6*(1+math.Abs(g)) && !(math.IsNaN(f) && math.IsNaN(g)) && f != g {
			return fmt.Sprintf("%s: %v natively, %v symbolically", o.label, g, f)
		}
	case "i":
		var k int64
		if t, ok := o.v.p.(*Term); ok {
			k = sext(ev.N(t), maxu8(t.s))
		} else {
			k = int64(o.v.n)
		}
		if strconv.FormatInt(k, 10) != n.Val {
			return fmt.Sprintf("%s: %v natively, %v symbolically", o.label, n.Val, k)
		}
	case "s":
		b := strBytes(o.v)
		bs := make([]byte, len(b))
		for i := range b {
			if t, ok := b[i].p.(*Term); ok {
				bs[i] = byte(ev.N(t))
			} else {
				bs[i] = byte(b[i].n)
			}
		}
		s := strconv.QuoteToASCII(string(bs))
		if s != n.Val && !strings.Contains(s, tokenMark) {
			return fmt.Sprintf("%s: %v natively, %v symbolically", o.label, n.Val, s)
		}
	}
	return ""
}

func maxu8(w uint8) uint8 {
	if w == 0 {
		return 64
	}
	return w
}

// SortedKeys is a helper for reports.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
