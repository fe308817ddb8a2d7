package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A property is decided by its root functions and everything their contracts
// rest on.
type propConf struct {
	Roots   []string
	Bounded []string // what only the bounded stand-in covers
	Assume  []string
	Relies  []string // functions whose contracts the checks of other properties decide
}

func loadProps() (map[string]*propConf, error) {
	f, err := os.Open(verifDir() + "/contracts/props.conf")
	if err != nil {
		return nil, err
	}
	defer f.Close()
	m := map[string]*propConf{}
	sc := bufio.NewScanner(f)
	var cur *propConf
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || l[0] == '#' {
			continue
		}
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			return nil, fmt.Errorf("props.conf: %s", l)
		}
		v = strings.TrimSpace(v)
		switch k {
		case "property":
			cur = &propConf{}
			m[v] = cur
		case "roots":
			cur.Roots = append(cur.Roots, strings.Fields(v)...)
		case "bounded":
			cur.Bounded = append(cur.Bounded, v)
		case "relies":
			for _, w := range strings.Fields(v) {
				n, p, _ := strings.Cut(w, "@")
				cur.Relies = append(cur.Relies, n)
				cur.Assume = append(cur.Assume, "the contract of "+n+", which the check of "+p+" decides")
			}
		case "assume":
			cur.Assume = append(cur.Assume, v)
		default:
			return nil, fmt.Errorf("props.conf: %s", l)
		}
	}
	return m, nil
}

type closure struct {
	funcs   []*FuncReport
	vcs     []*VC
	specs   []string
	lemmas  []string
	errs    []string // untranslatable: function: reason
	ext     map[string]bool
	assumed map[string]bool
	trusted map[string]string
	inlined map[string]bool
}

func (cl *closure) add(n string, r *FuncReport) (next []string) {
	cl.funcs = append(cl.funcs, r)
	cl.vcs = append(cl.vcs, r.VCs...)
	if r.Err != "" {
		cl.errs = append(cl.errs, n+": "+r.Err)
	}
	for k := range r.UsedExt {
		cl.ext[k] = true
	}
	for k := range r.Assumed {
		cl.assumed[k] = true
	}
	for k := range r.Inlined {
		cl.inlined[k] = true
	}
	for k := range r.UsedCon {
		next = append(next, k)
	}
	sort.Strings(next)
	return
}

// collect generates every obligation the roots rest on.
func collect(roots []string, except ...string) *closure {
	cl := &closure{ext: map[string]bool{}, assumed: map[string]bool{}, trusted: map[string]string{}, inlined: map[string]bool{}}
	usedLemmas = map[string]bool{}
	done := map[string]bool{}
	for _, n := range except {
		done[n] = true
	}
	queue := append([]string{}, roots...)
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if done[n] {
			continue
		}
		done[n] = true
		if t, ok := strings.CutPrefix(n, "functype "); ok {
			cfs, e := conformers(t)
			if e != "" {
				cl.errs = append(cl.errs, n+": "+e)
			}
			for _, cf := range cfs {
				queue = append(queue, cl.add(cf.key, verifyConform(cf))...)
			}
			continue
		}
		c := contracts[n]
		if c == nil {
			if lemmas[n] != nil {
				usedLemmas[n] = true
			} else if specFns[n] == nil {
				cl.errs = append(cl.errs, n+": no contract")
			}
			continue
		}
		if c.Trusted {
			cl.trusted[n] = c.Note
			continue
		}
		queue = append(queue, cl.add(n, verifyFunc(n))...)
	}
	// lemmas and specification functions
	ldone := map[string]bool{}
	for again := true; again; {
		again = false
		var ns []string
		for n := range usedLemmas {
			if !ldone[n] {
				ns = append(ns, n)
			}
		}
		for n, l := range lemmas {
			if l.Auto && !ldone[n] && !usedLemmas[n] {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			ldone[n] = true
			again = true
			vs, e := lemmaVCs(n)
			cl.lemmas = append(cl.lemmas, n)
			cl.vcs = append(cl.vcs, vs...)
			if e != "" {
				cl.errs = append(cl.errs, "lemma "+n+": "+e)
			}
		}
	}
	seen := map[*Term]bool{}
	fns := map[string]bool{}
	var note func(t *Term)
	note = func(t *Term) {
		if t == nil {
			return
		}
		walk(t, seen, func(x *Term) {
			if x.op == "app" && specFns[x.name] != nil && !fns[x.name] {
				sf := specFns[x.name]
				fns[x.name] = true
				note(sf.Body)
				for _, e := range sf.Ensures {
					note(e)
				}
			}
		})
	}
	for _, v := range cl.vcs {
		for _, h := range v.Hyps {
			note(h)
		}
		note(v.Goal)
	}
	for n := range fns {
		cl.specs = append(cl.specs, n)
	}
	sort.Strings(cl.specs)
	for _, n := range cl.specs {
		vs, e := specVCs(n)
		cl.vcs = append(cl.vcs, vs...)
		if e != "" {
			cl.errs = append(cl.errs, "spec "+n+": "+e)
		}
	}
	return cl
}

// knownFindings of a property: key -> text.
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(verifDir() + "/known_findings.txt")
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

type falsRes struct {
	None        bool              `json:"none"`
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct"`
	Samples     []string          `json:"samples"`
	Known       map[string]string `json:"known"`
	Violation   *struct {
		Key, Detail, Case string
	} `json:"violation"`
}

func runFalsifier(id string, budget float64, seed int, thorough bool, seeds [][]byte, replay string, known map[string]string) (*falsRes, error) {
	bin := os.Getenv("FALSIFY_BIN")
	if bin == "" {
		return &falsRes{None: true}, nil
	}
	args := []string{id, fmt.Sprintf("budget=%g", budget), fmt.Sprintf("seed=%d", seed), "replay=" + replay}
	if thorough {
		args = append(args, "thorough")
	}
	if len(seeds) > 0 {
		f, err := os.CreateTemp("", "seeds")
		if err != nil {
			return nil, err
		}
		defer os.Remove(f.Name())
		for _, s := range seeds {
			fmt.Fprintln(f, hex.EncodeToString(s))
		}
		f.Close()
		args = append(args, "seeds="+f.Name())
	}
	for k := range known {
		args = append(args, "known="+k)
	}
	cmd := exec.Command("timeout", append([]string{"-k", "5", fmt.Sprint(int(budget*2) + 60), bin}, args...)...)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB", "GOTRACEBACK=single")
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	var r falsRes
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if e := json.Unmarshal([]byte(lines[len(lines)-1]), &r); e != nil {
		// the code under test brought the process down or never returned
		what := errb.String()
		if len(what) > 6000 {
			what = what[:6000]
		}
		r.Violation = &struct{ Key, Detail, Case string }{"crash", fmt.Sprintf("process ended: %v\n%s", err, what), ""}
		b, _ := json.MarshalIndent(map[string]string{"property": id, "key": "crash", "detail": r.Violation.Detail}, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
	}
	return &r, nil
}

func cmdCheck(id, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	props, err := loadProps()
	fatal(err)
	pc := props[id]
	if pc == nil {
		fatal(fmt.Errorf("no property %s", id))
	}
	thorough := tier == "thorough"
	os.MkdirAll(verifDir()+"/evidence", 0o755)
	os.MkdirAll(verifDir()+"/replays", 0o755)
	replay := filepath.Join(verifDir(), "replays", id+".json")
	os.Remove(replay)

	cl := collect(pc.Roots, pc.Relies...)
	limit := 400 * time.Second
	if thorough {
		limit = 1500 * time.Second
		for i := range attempts {
			attempts[i].ms *= 4
		}
	}
	discharge(cl.vcs, 8, time.Now().Add(limit))

	var bad []*VC
	nob, ok, ncov := 0, 0, 0
	by := map[string]int{}
	perFn := map[string]int{}
	for _, v := range cl.vcs {
		if v.Cover {
			ncov++
		} else {
			nob++
			perFn[v.Fn]++
		}
		if v.Res == "proved" {
			if !v.Cover {
				ok++
				s := v.Solver
				if i := strings.IndexByte(s, '/'); i >= 0 {
					s = s[:i]
				}
				by[s]++
			}
		} else {
			bad = append(bad, v)
		}
	}
	trivial := 0
	for _, f := range cl.funcs {
		trivial += f.Trivial
	}
	known := knownFindings(id)
	var seeds [][]byte
	for i, v := range bad {
		if i >= 12 {
			break
		}
		seeds = append(seeds, modelSeeds(v)...)
	}
	budget := 8.0
	if thorough {
		budget = 120
	}
	failed := len(bad) > 0 || len(cl.errs) > 0
	if failed && budget < 60 {
		budget = 60
	}
	fr, err := runFalsifier(id, budget, seed, thorough, seeds, replay, known)
	fatal(err)

	nviol := 0
	rc := 0
	for k := range known {
		if _, hit := fr.Known[k]; hit || fr.Violation == nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k])
		}
	}
	var failText strings.Builder
	for _, e := range cl.errs {
		fmt.Fprintf(&failText, "not translatable: %s\n", e)
	}
	for i, v := range bad {
		if i >= 20 {
			fmt.Fprintf(&failText, "... and %d more\n", len(bad)-i)
			break
		}
		fmt.Fprintf(&failText, "obligation %s %s at %s: %s (%s); path: %s\n", v.Fn, v.Name, v.Pos, v.Res, v.Solver, strings.Join(v.Path, "; "))
	}
	if failed {
		fmt.Print(failText.String())
	}
	if fr.Violation != nil {
		nviol++
		rc = 1
		fmt.Printf("%s: %s\n", fr.Violation.Key, strings.SplitN(fr.Violation.Detail, "\n", 2)[0])
		if failed {
			if b, err := os.ReadFile(replay); err == nil {
				var m map[string]interface{}
				if json.Unmarshal(b, &m) == nil {
					m["failed_obligations"] = failText.String()
					b, _ = json.MarshalIndent(m, "", " ")
					os.WriteFile(replay, append(b, '\n'), 0o644)
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	} else if failed {
		nviol++
		rc = 1
		b, _ := json.MarshalIndent(map[string]string{"property": id, "key": "obligation", "failed_obligations": failText.String()}, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, replay)
	}

	// evidence
	var fns []string
	for _, f := range cl.funcs {
		fns = append(fns, fmt.Sprintf("%s (%d obligations, %d closed while generating, %d paths)", f.Key, perFn[f.Key], f.Trivial, f.Paths))
	}
	trusted := []string{
		"govc (this directory): the translation of Go into obligations",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"go/types and the Go compiler",
	}
	var assume []string
	assume = append(assume, pc.Assume...)
	for k := range cl.ext {
		assume = append(assume, "assumed contract of "+k)
	}
	for k := range cl.assumed {
		assume = append(assume, k)
	}
	for k, n := range cl.trusted {
		assume = append(assume, "trusted, not verified: "+k+" ("+n+")")
	}
	sort.Strings(assume[len(pc.Assume):])
	inl := keys(cl.inlined)
	level := "proof"
	if len(pc.Roots) == 0 {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"obligations": nob + trivial, "discharged": ok + trivial,
		"discharged_by":                 by,
		"closed_by_symbolic_simplifier": trivial,
		"reachability_covers":           ncov,
		"functions_under_contract":      fns,
		"inlined_functions":             inl,
		"specification_functions":       cl.specs,
		"lemmas":                        cl.lemmas,
		"solver_ms":                     solverMS,
		"checker_cmd":                   "bash /verif/check.sh " + id + " " + tier,
		"trusted_base":                  trusted,
	}
	if !fr.None {
		cov["evaluations"] = fr.Evaluations
		cov["distinct_nontrivial"] = fr.Distinct
		cov["rule"] = "bounded stand-in and falsifier on the public API (not counted as proof): fixed corpus, exhaustive short inputs and seeded random cases; non-trivial cases are those its check marks as exercising the property, counted by hash of the case"
		cov["samples"] = fr.Samples
	}
	if len(pc.Bounded) > 0 {
		cov["bounded_only"] = pc.Bounded
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	fatal(os.WriteFile(verifDir()+"/evidence/"+id+".json", append(b, '\n'), 0o644))
	fmt.Printf("%s %s: %d/%d obligations discharged (%d functions), %d bounded evaluations, %.1fs\n", id, tier, ok+trivial, nob+trivial, len(cl.funcs), fr.Evaluations, time.Since(t0).Seconds())
	return rc
}

func keys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
