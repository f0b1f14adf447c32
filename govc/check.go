package main

// govc check -prop P -tier T: decides one property.
//
//  1. every contract of the property is verified against the current source of the repository;
//  2. the black-box harness evaluates Lisp programs with the real interpreter and compares with an independent oracle: it replays
//     failures of the proof on the real code and is the (bounded, labelled) stand-in for what is outside the verifier's reach.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"

type harnessFailure struct {
	ID     string `json:"id"`
	Code   string `json:"code"`
	Want   string `json:"want"`
	Got    string `json:"got"`
	Detail string `json:"detail"`
}

type harnessResult struct {
	Property string           `json:"property"`
	Cases    int              `json:"cases"`
	Distinct int              `json:"distinct"`
	Rule     string           `json:"rule"`
	Samples  []string         `json:"samples"`
	Failures []harnessFailure `json:"failures"`
	Err      string           `json:"err"`
}

func allContracts() []*Contract {
	var cs []*Contract
	for _, f := range contractSets {
		cs = append(cs, f()...)
	}
	return cs
}

// contractSets lists the contract files.
var contractSets []func() []*Contract

func contractsOf(P *Program, prop string) []*Contract {
	var r []*Contract
	for _, c := range allContracts() {
		for _, p := range c.props {
			if p == prop {
				r = append(r, c)
			}
		}
		if (prop == "P09" || prop == "P10") && len(c.autos) == len(bothKinds) && notProved[strings.TrimPrefix(c.entry, "lisp:")] == "" && !generatedFor(P, c.entry) {
			d := *c
			d.props = append(append([]string(nil), c.props...), prop)
			r = append(r, &d)
		}
	}
	for _, g := range generatedContracts {
		r = append(r, g(P, prop)...)
	}
	return r
}

// generatedContracts makes one contract per built-in of the current interpreter.
var generatedContracts []func(P *Program, prop string) []*Contract

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	jobs := fs.Int("j", 8, "parallel")
	noHarness := fs.Bool("proof-only", false, "skip the harness (development)")
	verbose := fs.Bool("v", false, "list contracts")
	tmax := fs.Duration("t", 0, "time per contract (development)")
	only := fs.String("only", "", "only contracts whose name contains one of these comma separated texts (development)")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)

	hch := make(chan harnessResult, 1)
	if *noHarness {
		hch <- harnessResult{}
	} else {
		go func() { hch <- runHarness(*prop, *tier, seed, false) }()
	}

	P, err := Load(repoDir())
	var rs []*Result
	loadErr := ""
	if err != nil {
		loadErr = err.Error()
	} else {
		cs := contractsOf(P, *prop)
		budget := 300 * time.Second
		if *tier == "thorough" {
			budget = 500 * time.Second
		}
		if *tmax != 0 {
			budget = *tmax
		}
		if *only != "" {
			var sel []*Contract
			for _, c := range cs {
				for _, o := range strings.Split(*only, ",") {
					if strings.Contains(c.name, o) {
						sel = append(sel, c)
						break
					}
				}
			}
			cs = sel
		}
		rs = RunAll(P, cs, budget, *jobs)
	}
	tProof := time.Since(t0)

	// ---- verdict of the proof
	var failed []Failure
	oblig, discharged, paths, queries := 0, 0, 0, 0
	solverTime := time.Duration(0)
	backends := map[string]int{}
	assump := map[string]bool{}
	funcs := map[string]bool{}
	var contracts []map[string]interface{}
	for _, r := range rs {
		ex := r.Exec
		oblig += ex.Oblig
		paths += ex.Paths
		queries += ex.S.Queries
		solverTime += ex.S.Time
		for k, n := range ex.Backends {
			backends[k] += n
			discharged += n
		}
		for a := range ex.Assump {
			assump[a] = true
		}
		for f := range ex.Funcs {
			funcs[f] = true
		}
		fl := append([]Failure(nil), ex.Failures...)
		add := func(kind, msg string) {
			fl = append(fl, Failure{Kind: kind, Name: kind, Entry: r.Contract, Msg: msg})
		}
		if r.Err != "" {
			add("entry", r.Err)
		}
		for _, u := range ex.Unsup {
			add("undecided", u)
		}
		if r.Err == "" && len(ex.Unsup) == 0 && len(ex.Failures) == 0 {
			if ex.Oblig == 0 && !ex.con.mayBeTrivial || ex.Returns == 0 {
				add("vacuous", fmt.Sprintf("%d obligations, %d returns reached", ex.Oblig, ex.Returns))
			}
			for _, c := range ex.con.covers {
				if !ex.Covers[c] {
					add("vacuous", "the case \""+c+"\" of the contract is not reachable")
				}
			}
		}
		failed = append(failed, fl...)
		contracts = append(contracts, map[string]interface{}{"contract": r.Contract, "function": r.Func, "states": ex.con.clause,
			"obligations": ex.Oblig, "paths": ex.Paths, "seconds": round2(r.Wall), "failed": len(fl)})
		if *verbose {
			fmt.Printf("%-44s oblig=%-5d paths=%-5d ret=%-4d q=%-6d %.1fs fail=%d\n", r.Contract, ex.Oblig, ex.Paths, ex.Returns, ex.S.Queries, r.Wall, len(fl))
		}
	}
	if loadErr != "" {
		failed = append(failed, Failure{Kind: "load", Name: "load", Msg: loadErr})
	}
	hr := <-hch
	if len(failed) > 0 && len(hr.Failures) == 0 && !*noHarness && *tier == "quick" {
		// look harder for an input that shows the failure on the real code
		hr2 := runHarness(*prop, "thorough", seed, true)
		if len(hr2.Failures) > 0 || hr2.Err != "" {
			hr = hr2
		}
	}
	known := loadKnown()
	var violations []string
	emit := func(replay string, noInput bool) {
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, replay)
		if noInput {
			l += " no-failing-input-found"
		}
		violations = append(violations, l)
	}
	var newFail []Failure
	for _, f := range failed {
		if k := known.match(*prop, "obligation:"+f.Entry+":"+f.Kind+"/"+f.Name); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			continue
		}
		newFail = append(newFail, f)
	}
	failed = newFail
	var hf []harnessFailure
	for _, f := range hr.Failures {
		if k := known.match(*prop, "case:"+f.ID); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			continue
		}
		hf = append(hf, f)
	}
	if hr.Err != "" && len(hf) == 0 && !*noHarness {
		hf = append(hf, harnessFailure{ID: "harness", Detail: hr.Err})
	}
	if len(failed) > 0 || len(hf) > 0 {
		path := filepath.Join(verifDir, "replays", *prop+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\n\n", *prop)
		if len(hf) > 0 {
			fmt.Fprintf(&b, "Inputs on which the real interpreter breaks the property (replay: go run the code with the harness, or /verif/replay.sh FILE):\n")
			for i, f := range hf {
				if i >= 20 {
					fmt.Fprintf(&b, "… %d more\n", len(hf)-i)
					break
				}
				fmt.Fprintf(&b, "\n[%s]\ncode: %s\nwant: %s\ngot:  %s\n%s\n", f.ID, f.Code, f.Want, f.Got, f.Detail)
			}
		}
		if len(failed) > 0 {
			fmt.Fprintf(&b, "\nObligations that the verifier did not discharge:\n")
			for _, f := range failed {
				fmt.Fprintf(&b, "\n[%s] %s/%s at %s\n%s\ntrace: %s\n%s\n", f.Entry, f.Kind, f.Name, f.Pos, f.Msg, strings.Join(f.Trace, " | "), f.Model)
			}
		}
		os.WriteFile(path, b.Bytes(), 0o644)
		emit(path, len(hf) == 0)
		for i, f := range failed {
			if i < 12 {
				fmt.Printf("  undischarged: %s %s/%s %s %s\n", f.Entry, f.Kind, f.Name, f.Pos, clip(f.Msg, 240))
			}
		}
		for i, f := range hf {
			if i < 5 {
				fmt.Printf("  failing input [%s]: %s  want %s  got %s %s\n", f.ID, clip(f.Code, 300), clip(f.Want, 120), clip(f.Got, 120), clip(f.Detail, 200))
			}
		}
	}

	// ---- evidence
	level := "proof"
	if len(rs) == 0 {
		level = "exploration"
	}
	var as, fl []string
	for a := range assump {
		as = append(as, a)
	}
	sort.Strings(as)
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	as = append(append(append([]string{}, baseAssumptions...), propAssumptions[*prop]...), as...)
	cov := map[string]interface{}{
		"obligations": oblig, "discharged": discharged, "checker_cmd": "govc check -prop " + *prop + " (z3-new; portfolio z3, cvc5)",
		"trusted_base":             append([]string{"govc (verification-condition generator over go/ssa, /verif/govc)", "golang.org/x/tools/go/ssa v0.52.0", "z3 / cvc5"}, as...),
		"contracts":                contracts,
		"functions_under_contract": fl, "paths": paths, "solver_queries": queries, "solver_seconds": round2(solverTime.Seconds()), "discharged_by": backends,
		"proof_seconds":                        round2(tProof.Seconds()),
		"bounded_harness_cases":                hr.Cases,
		"bounded_harness_distinct":             hr.Distinct,
		"bounded_harness_rule":                 hr.Rule,
		"samples":                              hr.Samples,
		"bounded_harness_is_counted_as_proved": false,
	}
	if level == "exploration" {
		cov["evaluations"], cov["distinct_nontrivial"], cov["rule"] = hr.Cases, hr.Distinct, hr.Rule
	}
	ev := map[string]interface{}{"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as,
		"wall_s": round2(time.Since(t0).Seconds()), "violations": len(violations)}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), js, 0o644)
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %d undischarged; harness %d cases, %d failing; %.1fs\n", *prop, len(rs), oblig, discharged, len(failed), hr.Cases, len(hf), time.Since(t0).Seconds())
	for _, v := range violations {
		fmt.Println(v)
	}
	if len(violations) > 0 {
		os.Exit(1)
	}
}

var baseAssumptions = []string{
	"go/ssa faithfully represents the compiled code; the Go compiler and runtime are correct",
	"machine integers are 64-bit: arithmetic is mathematical with explicit wrap-around, so no overflow is assumed away",
	"no other goroutine touches the interpreter's data during a call",
	"memory exhaustion and stack overflow are not modelled; loops and recursion are verified for partial correctness",
	"an evaluation event may do anything that the contracts of Eval and Callable.Call allow (it preserves the type invariants and the dynamic control state, P07)",
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

type knownFindings []struct{ prop, key, text string }

// loadKnown reads known-findings.txt: "known: property=P <key> :: <text>" lines ("fixed:" lines suppress nothing).
func loadKnown() knownFindings {
	var r knownFindings
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(rest, ' ')
		j := strings.Index(rest, " :: ")
		if i < 0 || j < i {
			continue
		}
		r = append(r, struct{ prop, key, text string }{rest[:i], rest[i+1 : j], rest[j+4:]})
	}
	return r
}

func (k knownFindings) match(prop, key string) string {
	for _, f := range k {
		if f.prop == prop && f.key == key {
			return f.key + ": " + f.text
		}
	}
	return ""
}

func runHarness(prop, tier string, seed int, search bool) (res harnessResult) {
	work := filepath.Join(verifDir, ".work")
	os.MkdirAll(work, 0o755)
	bin := filepath.Join(work, fmt.Sprintf("harness.%s.%d", prop, os.Getpid()))
	defer os.Remove(bin)
	ov := bin + ".json"
	defer os.Remove(ov)
	repl := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*.go"))
	for _, f := range files {
		repl[filepath.Join(repoDir(), "cmd", "verifharness", filepath.Base(f))] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, js, 0o644)
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./cmd/verifharness")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		res.Err = "the harness does not build against the repository: " + clip(string(out), 2000)
		return
	}
	scratch, err := os.MkdirTemp("", "verifh")
	if err != nil {
		res.Err = err.Error()
		return
	}
	defer os.RemoveAll(scratch)
	c := exec.Command(bin, "-prop", prop, "-tier", tier, "-seed", strconv.Itoa(seed))
	c.Dir = scratch
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil {
		res.Err = fmt.Sprintf("the harness failed: %v\n%s", err, clip(errb.String(), 3000))
		return
	}
	// the last line is the JSON report
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	if err := json.Unmarshal([]byte(lines[len(lines)-1]), &res); err != nil {
		res.Err = "bad harness report: " + err.Error() + clip(out.String(), 500)
	}
	return
}
