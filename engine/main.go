package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check|run ...")
		os.Exit(1)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		cmdRun(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(1)
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// cmdRun: gosym run <harness pkg> <Func> — development entry.
func cmdRun(a []string) {
	H := &HarnessCfg{Pkg: a[0], Func: a[1], Params: map[string]int{}}
	if hs, err := loadHarnesses(verifDir()); err == nil {
		for _, h := range hs {
			if h.Pkg == a[0] && h.Func == a[1] {
				H = h
			}
		}
	}
	workers := 8
	budget := 60
	for _, x := range a[2:] {
		var k string
		var v int
		if n, _ := fmt.Sscanf(x, "-w=%d", &workers); n == 1 {
			continue
		}
		if n, _ := fmt.Sscanf(x, "-t=%d", &budget); n == 1 {
			continue
		}
		if n, _ := fmt.Sscanf(x, "-p=%d", &H.Preempt); n == 1 {
			continue
		}
		if strings.HasPrefix(x, "-solver=") {
			H.Solver = x[8:]
			continue
		}
		if x == "-debug" {
			H.Debug = true
			continue
		}
		if x == "-nopor" {
			H.NoPOR = true
			continue
		}
		if x == "-ff" {
			H.FreeFirst = true
			continue
		}
		if x == "-race" {
			H.Race = true
			continue
		}
		for i := range x {
			if x[i] == '=' {
				k = x[:i]
				fmt.Sscanf(x[i+1:], "%d", &v)
				H.Params[k] = v
			}
		}
	}
	H.defaults()
	scratch, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(scratch)
	t0 := time.Now()
	P, err := load(repoDir(), verifDir(), scratch, []string{H.Pkg})
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	R := explore(P, H, workers, time.Duration(budget)*time.Second, 4, 0)
	R.print()
}
