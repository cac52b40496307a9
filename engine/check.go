package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one entry of known_findings.json.
type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"` // known / fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings(verif string) ([]Finding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var fs []Finding
	return fs, json.Unmarshal(b, &fs)
}

// vxRun mirrors harness/vx.Run.
type vxRun struct {
	Func   string
	Vals   []NondetVal
	Params map[string]int
	Sched  []int
	Tags   []string
}

type vxOut struct {
	Obs      []string
	Fails    []string
	Panic    string
	Assume   bool
	Diverged bool
}

// Native builds and runs the harnesses as ordinary Go programs.
type Native struct {
	repo, verif, scratch, modfile string
	hs                            []*HarnessCfg
	bins                          map[string]string
	errs                          map[string]error
	buildTime                     time.Duration
}

func (N *Native) bin(sched, race bool) (string, error) {
	key := fmt.Sprintf("n_sched%v_race%v", sched, race)
	if e := N.errs[key]; e != nil {
		return "", e
	}
	if b := N.bins[key]; b != "" {
		return b, nil
	}
	b, err := N.build(key, sched, race)
	if err != nil {
		N.errs[key] = err
		return "", err
	}
	N.bins[key] = b
	return b, nil
}

func (N *Native) build(key string, sched, race bool) (string, error) {
	t0 := time.Now()
	defer func() { N.buildTime += time.Since(t0) }()
	dir := filepath.Join(N.scratch, key)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	ov := overlayMap(N.repo, N.verif)
	pk := map[string]bool{}
	for _, h := range N.hs {
		pk[h.Pkg] = true
	}
	pkgs := sortedKeys(pk)
	if sched {
		m, err := instrument(N.repo, N.verif, dir, N.modfile, pkgs)
		if err != nil {
			return "", err
		}
		for k, v := range m {
			ov[k] = v
		}
	}
	for k := range ov {
		if strings.Contains(k, "/zzverif/vmodel/") {
			delete(ov, k)
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"github.com/cespare/xxhash/v2\"\n\t\"%s/vx\"\n", zz)
	for i, p := range pkgs {
		fmt.Fprintf(&sb, "\th%d %q\n", i, zz+"/"+p)
	}
	if sched {
		fmt.Fprintf(&sb, "\t_ %q\n", zz+"/vsched")
	}
	sb.WriteString(")\n\nfunc main() {\n\txxhash.Hook = vx.HashLookup\n\tvx.Main(map[string]func(){\n")
	for i, p := range pkgs {
		seen := map[string]bool{}
		for _, h := range N.hs {
			if h.Pkg == p && !seen[h.Func] {
				seen[h.Func] = true
				fmt.Fprintf(&sb, "\t\t%q: h%d.%s,\n", h.Pkg+"."+h.Func, i, h.Func)
			}
		}
	}
	sb.WriteString("\t})\n}\n")
	mainf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(N.repo, "internal", "zzverif", "zzmain", "main.go")] = mainf
	ovf := filepath.Join(dir, "overlay.json")
	if err := writeOverlayJSON(ovf, ov); err != nil {
		return "", err
	}
	out := filepath.Join(dir, "replay")
	args := []string{"build", "-modfile=" + N.modfile, "-overlay=" + ovf, "-o", out}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, zz+"/zzmain")...)
	cmd.Dir = N.repo
	cmd.Env = os.Environ()
	if !race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	} else {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	b, err := cmd.CombinedOutput()
	if err != nil {
		s := string(b)
		return "", fmt.Errorf("native build: %v: %s", err, s[:min(len(s), 1500)])
	}
	return out, nil
}

// run executes recorded runs; it returns the outcomes it got, the stderr text and whether it timed out.
func (N *Native) run(bin string, runs []*vxRun, timeout time.Duration) ([]*vxOut, string, bool) {
	f, err := os.CreateTemp(N.scratch, "run*.json")
	if err != nil {
		return nil, err.Error(), false
	}
	b, _ := json.Marshal(runs)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f.Name())
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0", "GOMEMLIMIT=4GiB")
	cmd.Dir = N.scratch
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Run()
	var outs []*vxOut
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "VXRUN ") {
			o := &vxOut{}
			if json.Unmarshal([]byte(l[6:]), o) == nil {
				outs = append(outs, o)
			}
		}
	}
	return outs, se.String(), ctx.Err() != nil
}

// raceReported: a report whose accesses are outside the replay runtime itself.
func raceReported(se string) bool {
	for _, rep := range strings.Split(se, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "=================="); i > 0 {
			rep = rep[:i]
		}
		// the first frame of each of the two access stacks
		bad, n := false, 0
		lines := strings.Split(rep, "\n")
		for i, l := range lines {
			if (strings.Contains(l, "rite at 0x") || strings.Contains(l, "ead at 0x")) && i+1 < len(lines) {
				n++
				for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j++ {
					fn := strings.TrimSpace(lines[j])
					if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "/") {
						continue
					}
					if strings.Contains(fn, "/zzverif/vsched") || strings.Contains(fn, "/zzverif/vx.") {
						bad = true
					}
					break
				}
			}
		}
		if n >= 2 && !bad {
			return true
		}
	}
	return false
}

// reproduce replays a counterexample on the native code.
func (N *Native) reproduce(H *HarnessCfg, v *Violation) (bool, string) {
	race := v.Kind == "race"
	sched := H.Sched
	bin, err := N.bin(sched, race)
	if err != nil {
		return false, err.Error()
	}
	r := &vxRun{Func: H.Pkg + "." + H.Func, Vals: v.Nondet, Params: H.Params}
	if sched {
		r.Sched, r.Tags = v.Sched, v.SchedTag
	}
	n := H.Retry
	if sched && n < 16 {
		n = 16 // map iteration order is the runtime's: a replay that takes another order is repeated
	}
	why := ""
	t0 := time.Now()
	for i := 0; i < n && time.Since(t0) < 80*time.Second; i++ {
		outs, se, to := N.run(bin, []*vxRun{r}, 25*time.Second)
		switch v.Kind {
		case "race":
			if raceReported(se) {
				return true, "data race reported by the race detector"
			}
		case "deadlock":
			if to || strings.Contains(se, "all goroutines are asleep") {
				return true, "native run deadlocks"
			}
		case "panic":
			if len(outs) > 0 && outs[0].Panic != "" {
				return true, "panic: " + outs[0].Panic
			}
			if len(outs) == 0 && (strings.Contains(se, "panic: ") || strings.Contains(se, "fatal error: ")) {
				i := strings.Index(se, "panic: ")
				if i < 0 {
					i = strings.Index(se, "fatal error: ")
				}
				l := se[i:]
				if j := strings.IndexByte(l, '\n'); j > 0 {
					l = l[:j]
				}
				return true, l
			}
		default:
			if len(outs) > 0 {
				for _, f := range outs[0].Fails {
					if f == v.Label {
						return true, "assertion fails natively"
					}
				}
			}
		}
		switch {
		case to:
			why = "native run timed out"
		case len(outs) == 0:
			why = "native run died: " + se[:min(len(se), 300)]
		default:
			why = fmt.Sprintf("native outcome: fails=%v panic=%q assume=%v diverged=%v", outs[0].Fails, outs[0].Panic, outs[0].Assume, outs[0].Diverged)
		}
	}
	return false, why
}

// validate compares sampled paths with native runs of the same inputs.
func (N *Native) validate(H *HarnessCfg, samples []*PathResult) (ok int, bad []string) {
	if len(samples) == 0 {
		return 0, nil
	}
	bin, err := N.bin(H.Sched, false)
	if err != nil {
		return 0, []string{err.Error()}
	}
	for lo := 0; lo < len(samples); lo++ {
		p := samples[lo]
		r := &vxRun{Func: H.Pkg + "." + H.Func, Vals: p.Nondet, Params: H.Params}
		if H.Sched {
			r.Sched, r.Tags = p.Sched, p.SchedTag
		}
		outs, se, to := N.run(bin, []*vxRun{r}, 20*time.Second)
		for i := 0; i < 12 && H.Sched && len(outs) == 1 && outs[0].Diverged; i++ {
			outs, se, to = N.run(bin, []*vxRun{r}, 20*time.Second)
		}
		if len(outs) != 1 || to {
			bad = append(bad, fmt.Sprintf("no outcome (timeout %v): %s", to, se[:min(len(se), 400)]))
			continue
		}
		o := outs[0]
		switch {
		case o.Diverged:
			bad = append(bad, "schedule diverged: "+se[:min(len(se), 200)]+fmt.Sprint(p.Sched, p.SchedTag))
		case len(o.Fails) > 0 || o.Panic != "" || o.Assume:
			bad = append(bad, fmt.Sprintf("native fails=%v panic=%q assume=%v", o.Fails, o.Panic, o.Assume))
		case strings.Join(o.Obs, "|") != strings.Join(p.Obs, "|"):
			bad = append(bad, fmt.Sprintf("observed native %v symbolic %v", o.Obs, p.Obs))
		default:
			ok++
		}
	}
	return
}

type harnessReport struct {
	Harness    string           `json:"harness"`
	Desc       string           `json:"desc"`
	Bounds     map[string]any   `json:"bounds"`
	Complete   bool             `json:"complete_within_bounds"`
	Incomplete map[string]int64 `json:"incomplete_because,omitempty"`
	Pending    int              `json:"paths_left_at_time_limit,omitempty"`
	Paths      int64            `json:"paths"`
	Excluded   int64            `json:"paths_excluded_by_assumptions"`
	Steps      int64            `json:"instructions"`
	Decisions  int64            `json:"branch_decisions"`
	Implied    int64            `json:"branches_decided_without_solver"`
	Asserts    int64            `json:"assertions_checked"`
	Trivial    int64            `json:"assertions_constant_true"`
	Sched      int64            `json:"schedule_points,omitempty"`
	Solver     map[string]any   `json:"solver"`
	Functions  []string         `json:"functions_encoded"`
	Validated  int              `json:"paths_validated_natively"`
	Mismatch   []string         `json:"validation_mismatches,omitempty"`
	Missing    []string         `json:"vacuity_labels_not_reached,omitempty"`
	Unrepro    []string         `json:"unreproduced_counterexamples,omitempty"`
	Wall       float64          `json:"wall_s"`
}

func cmdCheck(a []string) int {
	prop, tier := "", os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	workers, verbose := 8, false
	for i := 0; i < len(a); i++ {
		switch a[i] {
		case "-prop":
			i++
			prop = a[i]
		case "-tier":
			i++
			tier = a[i]
		case "-w":
			i++
			workers, _ = strconv.Atoi(a[i])
		case "-v":
			verbose = true
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	repo, verif := repoDir(), verifDir()
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "gosymchk")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	all, err := loadHarnesses(verif)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	findings, err := loadFindings(verif)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	known := map[string]bool{}
	what := map[string]string{}
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" {
			known[f.ID] = true
			what[f.ID] = f.What
		}
	}
	var hs []*HarnessCfg
	pk := map[string]bool{}
	for _, h := range all {
		if h.Prop != prop || (h.Only == "thorough" && tier != "thorough") {
			continue
		}
		c := *h
		c.Params = map[string]int{}
		for k, v := range h.Params {
			c.Params[k] = v
		}
		if tier == "thorough" {
			for k, v := range h.Thorough {
				c.Params[k] = v
			}
			if h.TPreempt > 0 {
				c.Preempt = h.TPreempt
			}
		}
		c.KnownIDs = known
		c.defaults()
		hs = append(hs, &c)
		pk[h.Pkg] = true
	}
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for property", prop)
		return 2
	}
	P, err := load(repo, verif, scratch, sortedKeys(pk))
	if err != nil {
		fmt.Println("ERROR: cannot encode the current tree:", err)
		return 2
	}
	fmt.Printf("property %s tier %s: encoded in %.1fs\n", prop, tier, time.Since(t0).Seconds())
	N := &Native{repo: repo, verif: verif, scratch: scratch, modfile: filepath.Join(scratch, "verif.mod"), hs: hs, bins: map[string]string{}, errs: map[string]error{}}
	var reps []*harnessReport
	var samples []any
	nviol := 0
	knownSeen := map[string]string{}
	totPaths, totSteps, totVal := int64(0), int64(0), 0
	fnAll := map[string]bool{}
	complete := true
	replayDir := filepath.Join(verif, "evidence", "replay")
	old, _ := filepath.Glob(filepath.Join(replayDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for hi, H := range hs {
		budget := H.Budget
		nsamp := 6
		if tier == "thorough" {
			budget = H.TBudget
			nsamp = 16
		}
		if H.NoNative {
			nsamp = 0
		}
		R := explore(P, H, workers, time.Duration(budget)*time.Second, 4, max(nsamp, 2))
		if verbose {
			R.print()
		}
		rep := &harnessReport{Harness: H.Pkg + "." + H.Func, Desc: H.Desc, Paths: R.Paths, Excluded: R.Assumed, Steps: R.Steps, Decisions: R.Decs,
			Implied: R.Implied, Asserts: R.Asserts, Trivial: R.Trivial, Sched: R.Nsched, Complete: R.complete() && len(R.Viols) == 0, Pending: R.Pending, Wall: R.Wall.Seconds()}
		rep.Bounds = map[string]any{"params": H.Params, "loop_unwind": H.Unwind, "path_steps": H.MaxSteps, "preemptions": H.Preempt, "race_detection": H.Race,
			"map_order_free": H.MapNondet, "hash_uninterpreted": H.HashSym, "timer_fires": H.MaxTimers, "query_ms": H.QueryMs}
		if len(R.Why) > 0 || R.Unknown > 0 {
			rep.Incomplete = R.Why
			if R.Unknown > 0 {
				if rep.Incomplete == nil {
					rep.Incomplete = map[string]int64{}
				}
				rep.Incomplete["solver unknown"] = R.Unknown
			}
		}
		rep.Solver = map[string]any{"name": H.solver(), "queries": R.Solver.Queries, "sat": R.Solver.Sat, "unsat": R.Solver.Unsat, "unknown": R.Solver.Unknown,
			"errors": R.Solver.Errors, "seconds": round2(R.Solver.Time.Seconds()), "max_query_s": round2(R.Solver.MaxTime.Seconds())}
		for f := range R.Fns {
			if strings.Contains(f, "hyp3rd/hypercache") && !strings.Contains(f, "/zzverif/") {
				rep.Functions = append(rep.Functions, strings.ReplaceAll(f, repoMod, "hypercache"))
				fnAll[f] = true
			}
		}
		sort.Strings(rep.Functions)
		for _, l := range H.Reach {
			if !R.Reached[l] {
				rep.Missing = append(rep.Missing, l)
			}
		}
		for _, s := range R.Samples {
			if len(samples) < 6 {
				samples = append(samples, map[string]any{"harness": rep.Harness, "inputs": showVals(s.Nondet), "observed": s.Obs, "schedule_len": len(s.Sched)})
			}
		}
		seen := map[string]bool{}
		for i, v := range R.Viols {
			if seen[v.Kind+v.Label] {
				continue
			}
			ok, how := N.reproduce(H, v)
			desc := fmt.Sprintf("%s %s: %s %s %s", rep.Harness, v.Kind, v.Label, v.Detail, strings.Join(showVals(v.Nondet), " "))
			if !ok {
				rep.Unrepro = append(rep.Unrepro, desc+" ["+how+"]")
				fmt.Printf("UNREPRODUCED property=%s %s [%s]\n", prop, desc, how)
				continue
			}
			seen[v.Kind+v.Label] = true
			nviol++
			os.MkdirAll(replayDir, 0o755)
			rp := filepath.Join(replayDir, fmt.Sprintf("%s-%s%d-%d.json", prop, H.Func, hi, i))
			b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": rep.Harness, "kind": v.Kind, "label": v.Label, "detail": v.Detail, "at": v.Stack,
				"native": how, "run": &vxRun{Func: rep.Harness, Vals: v.Nondet, Params: H.Params, Sched: v.Sched, Tags: v.SchedTag}}, "", " ")
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("counterexample: %s [%s]\n  at %s\n", desc, how, v.Stack)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		}
		for id, v := range R.Known {
			ok, how := N.reproduce(H, v)
			if _, dup := knownSeen[id]; !dup || ok {
				knownSeen[id] = fmt.Sprintf("%s (%s; native replay: %v, %s)", what[id], rep.Harness, ok, how)
			}
		}
		if nviol == 0 && !H.NoNative {
			var bad []string
			rep.Validated, bad = N.validate(H, R.Samples)
			rep.Mismatch = bad
			for _, s := range bad {
				fmt.Printf("MISMATCH %s: %s\n", rep.Harness, s)
			}
		}
		fmt.Printf("  %s: paths=%d complete=%v asserts=%d queries=%d unsat=%d solver=%.1fs validated=%d wall=%.1fs%s\n", rep.Harness, rep.Paths, rep.Complete, rep.Asserts,
			R.Solver.Queries, R.Solver.Unsat, R.Solver.Time.Seconds(), rep.Validated, rep.Wall, warn(rep))
		complete = complete && rep.Complete
		totPaths += R.Paths
		totSteps += R.Steps
		totVal += rep.Validated
		reps = append(reps, rep)
		if nviol > 0 && tier == "quick" {
			break
		}
	}
	for _, id := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, knownSeen[id])
	}
	if len(samples) == 0 {
		samples = append(samples, "no path ended without a violation")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round2(time.Since(t0).Seconds()), "violations": nviol,
		"coverage": map[string]any{"states": totPaths, "transitions": totSteps, "traces_validated_against_impl": totVal, "samples": samples, "exhaustive": complete,
			"states_meaning": "symbolic paths (each stands for every input satisfying its path condition); transitions: SSA instructions executed symbolically",
			"harnesses":      reps, "functions_encoded_total": len(fnAll), "native_build_s": round2(N.buildTime.Seconds()), "known_findings": knownSeen},
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if nviol > 0 {
		return 1
	}
	fmt.Printf("OK property=%s (%.1fs)\n", prop, time.Since(t0).Seconds())
	return 0
}

var assumptions = []string{
	"Go memory model: paths are sequentially consistent; harnesses with race_detection also report unordered conflicting accesses",
	"schedules switch goroutines only at synchronisation operations, up to the stated number of preemptions; timers fire when nothing else can run",
	"library functions listed in engine/libmodels.go are replaced by models; sampled paths are re-run on the compiled code and compared",
	"outside the stated bounds nothing is claimed",
}

func warn(r *harnessReport) string {
	s := ""
	if len(r.Missing) > 0 {
		s += fmt.Sprintf(" NOT-REACHED=%v", r.Missing)
	}
	if len(r.Incomplete) > 0 {
		k := sortedKeys(r.Incomplete)
		s += fmt.Sprintf(" INCOMPLETE=%v", k[:min(len(k), 3)])
	}
	if r.Pending > 0 {
		s += fmt.Sprintf(" PENDING=%d", r.Pending)
	}
	return s
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }

func showVals(vs []NondetVal) []string {
	out := []string{}
	for _, v := range vs {
		q := strconv.Quote(v.Key)
		out = append(out, q[1:len(q)-1]+"="+v.show())
	}
	return out
}
