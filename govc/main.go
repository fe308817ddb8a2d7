package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func fatal(e error) {
	if e != nil {
		fmt.Fprintln(os.Stderr, "govc:", e)
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// goEnv selects the toolchain /opt/vp/build.sh uses.
func goEnv() {
	const root = "/opt/veriftools/go1.26.10/bin"
	if _, err := os.Stat(root + "/go"); err == nil {
		os.Setenv("PATH", root+":"+os.Getenv("PATH"))
	}
	for _, kv := range [][2]string{{"GOTOOLCHAIN", "local"}, {"GOFLAGS", "-mod=mod"}, {"GOPROXY", "off"}, {"GOWORK", "off"}} {
		os.Setenv(kv[0], kv[1])
	}
	for _, kv := range [][2]string{{"HOME", "/root"}, {"GOMODCACHE", "/root/go/pkg/mod"}, {"GOCACHE", "/root/.cache/go-build"}} {
		if os.Getenv(kv[0]) == "" {
			os.Setenv(kv[0], kv[1])
		}
	}
}

func main() {
	if r := os.Getenv("GOVC_REPO"); r != "" {
		repoDir = r
	}
	goEnv()
	debugPanic = os.Getenv("GOVC_PANIC") != ""
	fatal(loadRepo())
	buildCallGraph()
	all, _ := filepath.Glob(verifDir() + "/spec/*.go")
	var sp []string
	for _, f := range all {
		if !strings.HasSuffix(f, "_test.go") {
			sp = append(sp, f)
		}
	}
	fatal(loadSpec(sp...))
	activeProp = os.Getenv("GOVC_PROP")
	if len(os.Args) > 2 && os.Args[1] == "check" {
		activeProp = os.Args[2]
	}
	fatal(loadContracts(verifDir() + "/contracts"))
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "fn" {
		debugFns(args[1:])
		return
	}
	if len(args) >= 2 && args[0] == "check" {
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		}
		os.Exit(cmdCheck(args[1], tier))
	}
	fmt.Fprintln(os.Stderr, "usage: govc check ID [quick|thorough] | govc fn NAME...")
	os.Exit(2)
}

// debugFns verifies the named functions and prints every failing obligation.
func debugFns(names []string) {
	var vcs []*VC
	for _, n := range names {
		var vs []*VC
		var err string
		switch {
		case n == "specs":
			for s := range specFns {
				v, e := specVCs(s)
				vs = append(vs, v...)
				if e != "" {
					err += s + ": " + e + "; "
				}
			}
		case n == "lemmas":
			for s := range lemmas {
				v, e := lemmaVCs(s)
				vs = append(vs, v...)
				if e != "" {
					err += s + ": " + e + "; "
				}
			}
		case lemmas[n] != nil:
			vs, err = lemmaVCs(n)
		case specFns[n] != nil:
			vs, err = specVCs(n)
		case strings.HasPrefix(n, "+"):
			cl := collect([]string{n[1:]})
			vs = cl.vcs
			err = strings.Join(cl.errs, "\n    ")
			for _, r := range cl.funcs {
				fmt.Printf("  %s: %d obligations, %d paths\n", r.Key, len(r.VCs), r.Paths)
			}
		case funcTypes[n] != nil:
			cfs, e := conformers(n)
			err = e
			for _, cf := range cfs {
				r := verifyConform(cf)
				vs = append(vs, r.VCs...)
				if r.Err != "" {
					err += "\n    " + cf.key + ": " + r.Err
				}
				fmt.Printf("  %s: %d obligations, %d paths\n", r.Key, len(r.VCs), r.Paths)
			}
		default:
			r := verifyFunc(n)
			vs, err = r.VCs, r.Err
			for a := range r.Assumed {
				fmt.Println("  note:", a)
			}
			var inl []string
			for a := range r.Inlined {
				inl = append(inl, a)
			}
			fmt.Printf("%s: %d obligations, %d trivial, %d paths, inlined %v\n", n, len(vs), r.Trivial, r.Paths, inl)
		}
		if err != "" {
			fmt.Printf("%s: UNSUPPORTED %s\n", n, err)
		}
		vcs = append(vcs, vs...)
	}
	t0 := time.Now()
	discharge(vcs, 8, time.Now().Add(600*time.Second))
	bad := map[string]int{}
	for _, v := range vcs {
		if l := os.Getenv("GOVC_LIST"); l != "" && strings.Contains(v.Name, l) {
			fmt.Printf("%s %s %s %.0fms %s | %s\n", v.Fn, v.Name, v.Res, v.MS, v.Solver, strings.Join(v.Path, "; "))
			if os.Getenv("GOVC_V") != "" {
				fmt.Printf("     goal: %s\n", v.Goal)
			}
		}
		if v.Res != "proved" {
			k := v.Fn + " " + v.Name
			bad[k]++
			if bad[k] <= 4 {
				fmt.Printf("FAIL %s %s at %s: %s %s %s\n", v.Fn, v.Name, v.Pos, v.Res, v.Solver, v.Model)
				fmt.Printf("     path: %s\n", strings.Join(v.Path, "; "))
				if os.Getenv("GOVC_V") != "" {
					fmt.Printf("     goal: %s\n", v.Goal)
				}
				if v.SMTFile != "" {
					fmt.Println("     ", v.SMTFile)
				}
			}
		}
	}
	if os.Getenv("GOVC_SLOW") != "" {
		sort.SliceStable(vcs, func(i, j int) bool { return vcs[i].MS > vcs[j].MS })
		for _, v := range vcs[:min(len(vcs), 12)] {
			fmt.Printf("slow %s %s %.0fms %s\n", v.Fn, v.Name, v.MS, v.Solver)
		}
	}
	slow := 0.0
	for _, v := range vcs {
		if v.MS > slow {
			slow = v.MS
		}
	}
	for k, n := range bad {
		if n > 4 {
			fmt.Printf("... %s failed %d times\n", k, n)
		}
	}
	fmt.Printf("%d obligations, %d failed, %.1fs, slowest %.0fms\n", len(vcs), sum(bad), time.Since(t0).Seconds(), slow)
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}
