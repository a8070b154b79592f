// Command gosym decides the properties of mazzegi/xpdf by bounded symbolic execution of its current source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/sx"
)

const module = "github.com/mazzegi/xpdf"

type finding struct {
	prop, entry, label, text string
}

func findings(file, prop string) []finding {
	var r []finding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> entry=<harness> label=<assertion label> | what fails
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " | ")
		f := finding{text: text}
		if i := strings.Index(head, " label="); i >= 0 {
			f.label = strings.TrimSpace(head[i+7:])
			head = head[:i]
		}
		for _, w := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				f.prop = v
			}
			if v, ok := strings.CutPrefix(w, "entry="); ok {
				f.entry = v
			}
		}
		if f.prop == prop {
			r = append(r, f)
		}
	}
	return r
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Tier     int               `json:"tier"`
	Entry    string            `json:"entry"`
	Label    string            `json:"label"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Values   map[string]string `json:"values"`
	Native   *sx.NativeResult  `json:"native"`
}

func main() {
	verif := flag.String("verif", "/verif", "verification directory")
	repo := flag.String("repo", "/repo", "repository")
	verbose := flag.Bool("v", false, "verbose")
	entry := flag.String("entry", "", "only these harness functions (comma separated)")
	budget := flag.Float64("budget", 0, "seconds for the exploration")
	jobs := flag.Int("j", 0, "workers")
	tierF := flag.String("tier", "", "quick or thorough")
	noNative := flag.Bool("nonative", false, "do not replay natively")
	longq := flag.Duration("longq", 0, "report slow queries")
	forks := flag.Bool("forks", false, "report where paths split")
	maxSteps := flag.Int64("steps", 30e6, "instructions per path")
	solver := flag.String("solver", "z3-new -in", "solver command")
	prof := flag.String("cpuprofile", "", "profile")
	all := flag.Bool("all", false, "do not stop at the first violation")
	flag.Parse()
	if flag.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym check <property> | gosym replay <file>")
		os.Exit(2)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch flag.Arg(0) {
	case "replay":
		os.Exit(replay(*verif, *repo, flag.Arg(1)))
	case "check":
	default:
		fmt.Fprintln(os.Stderr, "unknown command", flag.Arg(0))
		os.Exit(2)
	}
	prop := flag.Arg(1)
	tier := os.Getenv("VERIF_TIER")
	if *tierF != "" {
		tier = *tierF
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := *jobs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	total := 400.0
	if tier == "thorough" {
		total = 780
	}
	if *budget > 0 {
		total = *budget
	}
	code := check(opts{verif: *verif, repo: *repo, prop: prop, tier: tier, seed: seed, jobs: n, budget: total, entry: *entry,
		verbose: *verbose, noNative: *noNative, longq: *longq, forks: *forks, maxSteps: *maxSteps, solver: *solver, all: *all})
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type opts struct {
	verif, repo, prop, tier, entry, solver string
	seed                                   int64
	jobs                                   int
	budget                                 float64
	verbose, noNative, all                 bool
	longq                                  time.Duration
	forks                                  bool
	maxSteps                               int64
}

func harnessOf(prop string) string { return strings.ToLower(prop) }

// Meta is declared by harness packages as a doc comment with lines "bounds:", "outside:", "assume:", "stub:".
func meta(dir string) map[string][]string {
	r := map[string][]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimPrefix(strings.TrimSpace(l), "//")
			l = strings.TrimSpace(l)
			for _, k := range []string{"bounds", "outside", "assume", "stub"} {
				if v, ok := strings.CutPrefix(l, k+": "); ok {
					r[k] = append(r[k], v)
				}
			}
		}
	}
	return r
}

func check(o opts) int {
	start := time.Now()
	hdir := filepath.Join(o.verif, "harness")
	h := harnessOf(o.prop)
	ov, err := sx.Overlay(o.repo, hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	P, err := sx.Load(o.repo, module, ov, module+"/zzverif/"+h)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var entries []*sx.Entry
	var names []string
	for n, m := range P.Harness.Members {
		f, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(n, "H") && len(n) > 1 && n[1] >= 'A' && n[1] <= 'Z' && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Slice(names, func(i, j int) bool {
		return P.Harness.Func(names[i]).Pos() < P.Harness.Func(names[j]).Pos()
	})
	want := map[string]bool{}
	if o.entry != "" {
		for _, e := range strings.Split(o.entry, ",") {
			want[e] = true
		}
	}
	for _, n := range names {
		if len(want) == 0 || want[n] {
			entries = append(entries, &sx.Entry{Name: n, Fn: P.Harness.Func(n)})
		}
	}
	if len(entries) == 0 {
		fmt.Fprintln(os.Stderr, "no harness functions")
		return 2
	}
	tierN := 0
	if o.tier == "thorough" {
		tierN = 1
	}
	ex := &sx.Explorer{P: P, N: o.jobs, Bin: strings.Fields(o.solver), TimeoutMS: 10000, MaxSteps: o.maxSteps, Tier: tierN,
		Verbose: o.verbose, LongQ: o.longq, Forks: o.forks, Out: os.Stdout, Validate: 6, Seed: o.seed, StopAtViol: !o.all}
	if o.tier == "thorough" {
		ex.Validate = 20
		ex.TimeoutMS = 30000
	}
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	if !o.noNative {
		r, err := sx.BuildRunner(o.repo, module, h, work, ov, names)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ex.Runner = r
	}
	known := findings(filepath.Join(o.verif, "known-findings.txt"), o.prop)
	for _, k := range known {
		ex.Known(k.entry, k.label)
	}
	ex.Init()
	defer ex.Close()
	end := start.Add(time.Duration(o.budget * float64(time.Second)))
	var stats []*sx.EntryStats
	for i, e := range entries {
		left := time.Until(end)
		share := left / time.Duration(len(entries)-i)
		if len(entries)-i > 1 {
			share = share * 3 / 2
		}
		if share < time.Second {
			share = time.Second
		}
		st := ex.Run(e, share)
		stats = append(stats, st)
		if o.verbose {
			b, _ := json.Marshal(st)
			fmt.Fprintf(os.Stderr, "%s\n", b)
		}
		if len(ex.Violations) > 0 && !o.all {
			break
		}
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.text)
	}
	code := 0
	rdir := filepath.Join(o.verif, "evidence", "replays")
	old, _ := filepath.Glob(filepath.Join(rdir, o.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for i, v := range ex.Violations {
		code = 1
		os.MkdirAll(rdir, 0o755)
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", o.prop, i+1))
		b, _ := json.MarshalIndent(replayFile{o.prop, h, tierN, v.Entry, v.Label, v.Kind, v.Msg, v.Values, v.Native}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, f)
		fmt.Printf("  %s: %s (%s)\n", v.Entry, v.Label, v.Kind)
		if v.Native != nil {
			for _, nt := range v.Native.Notes {
				fmt.Printf("  note: %s\n", nt)
			}
			if v.Native.Panic != "" {
				p := v.Native.Panic
				if len(p) > 300 {
					p = p[:300]
				}
				fmt.Printf("  panic: %s\n", p)
			}
		}
	}
	if bad := ex.SolverErrors(); bad > 0 {
		fmt.Fprintf(os.Stderr, "%d solver failures\n", bad)
		if code == 0 && bad > 5 {
			code = 2
		}
	}
	evidence(o, ex, stats, time.Since(start), meta(filepath.Join(hdir, h)))
	sum := 0
	for _, s := range stats {
		sum += s.OK
		ext := "exhausted"
		if !s.Exhausted {
			ext = fmt.Sprintf("NOT exhausted (%d prefixes left)", s.Left)
		}
		fmt.Printf("%s %s: %d paths (%d complete, %d cut by assumptions, %d unsupported, %d unknown), %d queries, %.1fs solver, %.1fs wall, %s\n",
			o.prop, s.Name, s.Paths, s.OK, s.Infeasible, s.Unsupported, s.Unknown, s.Queries, s.SolverSec, s.WallSec, ext)
	}
	if code == 0 {
		fmt.Printf("%s: held on everything explored (%d complete symbolic paths, %.1fs)\n", o.prop, sum, time.Since(start).Seconds())
	}
	return code
}

func evidence(o opts, ex *sx.Explorer, stats []*sx.EntryStats, wall time.Duration, md map[string][]string) {
	repo, std := ex.Functions()
	var states, val, div int
	var trans, queries int64
	var solver float64
	exh := true
	unsup, unk, unconf := 0, 0, 0
	asserts := 0
	for _, s := range stats {
		states += s.OK
		trans += s.Decisions + int64(s.Paths)
		queries += s.Queries
		solver += s.SolverSec
		val += s.Validated - s.Diverged
		div += s.Diverged
		exh = exh && s.Exhausted && s.Unsupported == 0 && s.Unknown == 0
		unsup += s.Unsupported
		unk += s.Unknown
		unconf += s.Unconfirmed
		for _, n := range s.Asserts {
			asserts += n
		}
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": val,
		"traces_diverged":               div,
		"rule":                          "states: completed symbolic paths (each a set of inputs decided by the solver); transitions: branch decisions taken plus path starts; validated: paths whose model was replayed on the compiled code with equal observations",
		"exhaustive":                    exh,
		"queries":                       queries,
		"solver_seconds":                round(solver),
		"assertions_checked":            asserts,
		"unsupported_paths":             unsup,
		"solver_unknown_paths":          unk,
		"unconfirmed_candidates":        unconf,
		"harnesses":                     stats,
		"functions_encoded_repo":        repo,
		"functions_encoded_other_count": len(std),
		"bounds":                        md["bounds"],
		"outside_bounds":                md["outside"],
		"stubs":                         md["stub"],
		"samples":                       ex.Samples,
	}
	if len(ex.Samples) == 0 {
		cov["samples"] = []any{map[string]string{"note": "no completed path was replayed"}}
	}
	assume := append([]string{
		"harness and code under test are interpreted from go/ssa form of /repo's current source; the interpreter, the term encoding, z3 and the listed stubs are trusted for 'held' verdicts; violations are replayed on the compiled code before they are reported",
		"floating point: exact reals plus an explicit rounding error per operation, inputs on a dyadic grid",
	}, md["assume"]...)
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking",
		"coverage": cov, "assumptions": assume, "wall_s": round(wall.Seconds()), "violations": len(ex.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		if len(repo) > 80 {
			cov["functions_encoded_repo"] = append(repo[:80:80], fmt.Sprintf("... %d more", len(repo)-80))
		}
		for _, s := range stats {
			s.Divergences, s.UnconfirmedMs = nil, nil
			if len(s.UnsupMsgs) > 3 {
				s.UnsupMsgs = nil
			}
		}
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	if o.entry == "" {
		os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0o644)
	}
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func replay(verif, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ov, err := sx.Overlay(repo, filepath.Join(verif, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	work, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(work)
	r, err := sx.BuildRunner(repo, module, rf.Harness, work, ov, []string{rf.Entry})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res, err := r.Run(rf.Entry, rf.Tier, rf.Values)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	out, _ := json.MarshalIndent(res, "", " ")
	fmt.Println(string(out))
	if len(res.Fail) > 0 || res.Panic != "" {
		return 1
	}
	return 0
}
