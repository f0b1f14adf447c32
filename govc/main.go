package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc run|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "globals":
		P, err := Load(repoDir())
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		P.listGlobalUses()
	case "list":
		P, err := Load(repoDir())
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, n := range sortedKeys(P.builtins) {
			b := P.builtins[n]
			mi, ma := b.Arity()
			fmt.Println(n, b.kind, mi, ma, P.fname(b.fn))
		}
	}
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// cmdRun verifies automatic obligations of the named entries (development aid).
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	entry := fs.String("entry", "", "comma separated entries, or 'all'")
	autos := fs.String("autos", "*", "kinds")
	budget := fs.Duration("t", 60*time.Second, "time per entry")
	jobs := fs.Int("j", 8, "parallel")
	verbose := fs.Bool("v", false, "details")
	fs.Parse(args)
	P, err := Load(repoDir())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var cs []*Contract
	names := strings.Split(*entry, ",")
	if *entry == "all" {
		names = nil
		for _, n := range sortedKeys(P.builtins) {
			names = append(names, "lisp:"+n)
		}
	}
	for _, n := range names {
		if !strings.Contains(n, ":") {
			n = "lisp:" + n
		}
		cs = append(cs, &Contract{name: n, entry: n, autos: strings.Split(*autos, ",")})
	}
	rs := RunAll(P, cs, *budget, *jobs)
	tot, bad, un := 0, 0, 0
	for _, r := range rs {
		ex := r.Exec
		tot += ex.Oblig
		st := "ok"
		if len(ex.Failures) > 0 {
			st = "FAIL"
			bad++
		}
		if len(ex.Unsup) > 0 || r.Err != "" {
			st += " UNSUP"
			un++
		}
		fmt.Printf("%-10s %-36s oblig=%-5d paths=%-5d ret=%-4d q=%-6d %.1fs %s\n", st, r.Contract, ex.Oblig, ex.Paths, ex.Returns, ex.S.Queries, r.Wall, r.Err)
		for _, f := range ex.Failures {
			fmt.Printf("     %s/%s %s %s\n", f.Kind, f.Name, f.Pos, clip(f.Msg, 300))
			if *verbose {
				fmt.Println("        trace:", strings.Join(f.Trace, " | "))
				fmt.Println(f.Model)
			}
		}
		for _, u := range ex.Unsup {
			fmt.Printf("     unsupported: %s\n", clip(u, 300))
		}
	}
	fmt.Printf("entries %d obligations %d failing %d unsupported %d\n", len(rs), tot, bad, un)
}

// RunAll verifies contracts in parallel.
func RunAll(P *Program, cs []*Contract, budget time.Duration, jobs int) []*Result {
	rs := make([]*Result, len(cs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, jobs)
	for i, c := range cs {
		wg.Add(1)
		go func(i int, c *Contract) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			rs[i] = RunContract(P, c, budget)
			if debug {
				fmt.Fprintf(os.Stderr, "DONE %s %.1fs\n", c.name, rs[i].Wall)
			}
		}(i, c)
	}
	wg.Wait()
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].Contract < rs[j].Contract })
	return rs
}
