package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Prop is a property this program decides.
type Prop struct {
	id  string
	run func(p *Prog, rep *Report) error
	min int // obligation instances expected at least
}

// The program gives up on what it has not decided by then.
const patience = 800 * time.Second

const rootPatience = 120 * time.Second

var started time.Time

var props = map[string]*Prop{}

func register(id string, min int, run func(p *Prog, rep *Report) error) {
	props[id] = &Prop{id, run, min}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "/verif", "directory that holds evidence/ and known_findings.txt")
	only := flag.String("only", "", "")
	skip := flag.String("skip", "", "")
	dump := flag.Bool("dump", false, "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	t0 := time.Now()
	if f := os.Getenv("AITCH_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	onlyRoot, skipRoot = *only, *skip
	thorough = *tier == "thorough"
	started = t0
	p, err := load(*repo)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		if *prop != "" {
			fail(*out, *prop, *tier, t0, newReport(*prop), []string{"cannot load the repository: " + err.Error()})
		}
		os.Exit(1)
	}
	if *prop == "" {
		a := newAnalysis(p)
		if err := a.solve(ModeFail, false); err != nil {
			fmt.Println("solve:", err)
		}
		fmt.Println("solved", time.Since(t0))
		if *dump {
			var ks []string
			for k, s := range a.inv.m {
				ks = append(ks, k+" "+s.keyStr())
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println(k)
			}
			for r, n := range a.exits {
				if n == 0 {
					fmt.Println("zero exits", r)
				}
			}
		}
		return
	}
	bad := false
	for _, id := range strings.Split(*prop, ",") {
		pr := props[id]
		if pr == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		t0 := time.Now()
		rep := newReport(id)
		var vs []string
		err := guarded(pr.run, p, rep)
		for n := 0; n < 2 && err != nil && strings.Contains(err.Error(), "invariants changed"); n++ {
			rep = newReport(id)
			err = guarded(pr.run, p, rep)
		}
		if err != nil {
			rep.undecided("everything", "", "the analysis could not be completed: "+err.Error())
		}
		vs = append(vs, rep.violations()...)
		_, _, inst := rep.counts()
		if inst < pr.min && onlyRoot == "" && len(rep.und) == 0 {
			rep.undecided("everything", "", fmt.Sprintf("only %d instances were examined, at least %d were expected", inst, pr.min))
		}
		if *verbose {
			var ks []string
			for k, o := range rep.obl {
				ks = append(ks, fmt.Sprintf("%6d %s", o.n, k))
			}
			sort.Strings(ks)
			fmt.Println(strings.Join(ks, "\n"))
		}
		if fail(*out, id, *tier, t0, rep, vs) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

// guarded turns a failure of the analyser itself into an error: it says nothing about the code.
func guarded(f func(p *Prog, rep *Report) error, p *Prog, rep *Report) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("AITCH_CRASH") != "" {
				panic(e)
			}
			err = fmt.Errorf("internal error: %v", e)
		}
	}()
	return f(p, rep)
}

// known reads the known findings: "finding: property=<id> <text that the report contains>".
func known(dir, id string) []string {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " "
		if strings.HasPrefix(l, pre) {
			r = append(r, strings.TrimSpace(l[len(pre):]))
		}
	}
	return r
}

// explanation is what MANIFEST.json says about the check.
func explanation(dir, id string) string {
	var m struct {
		Checks []struct {
			Property  string
			Technique string
			LevelNote string `json:"level_note"`
		}
	}
	b, err := os.ReadFile(filepath.Join(dir, "MANIFEST.json"))
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	if err == nil {
		for _, c := range m.Checks {
			if c.Property == id {
				return c.Technique + ": " + c.LevelNote
			}
		}
	}
	return "static analysis of the source of the repository"
}

// fail writes the evidence and prints the verdict; it reports whether there is a violation.
func fail(dir, id, tier string, t0 time.Time, rep *Report, vs []string) bool {
	var left []string
	kn := known(dir, id)
	printed := map[string]bool{}
	for _, v := range vs {
		hit := false
		for _, k := range kn {
			if strings.Contains(v, k) {
				hit = true
				if !printed[k] {
					printed[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v)
				}
			}
		}
		if !hit {
			left = append(left, v)
		}
	}
	obl, dis, inst := rep.counts()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var keys []string
	for k, o := range rep.obl {
		keys = append(keys, fmt.Sprintf("%s: %d instances", k, o.n))
	}
	sort.Strings(keys)
	step := len(keys)/40 + 1
	var samples []string
	for i := 0; i < len(keys); i += step {
		samples = append(samples, keys[i])
	}
	sort.Strings(rep.notes)
	und := rep.undecidedList()
	for i, u := range und {
		if i == 10 {
			break
		}
		if len(u) > 400 {
			u = u[:400]
		}
		fmt.Printf("UNDECIDED: property=%s %s\n", id, u)
	}
	if und == nil {
		und = []string{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation": explanation(dir, id),
			"obligations": obl, "discharged": dis, "instances": inst,
			"functions_analysed": len(rep.roots), "abstract_states": rep.states,
			"samples": samples, "notes": rep.notes, "undecided": und,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  left,
	}
	if left == nil {
		ev["violations"] = []string{}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644)
	if len(left) == 0 {
		fmt.Printf("property=%s holds: %d obligations, %d instances, %d functions, %d states, %.1fs\n", id, obl, inst, len(rep.roots), rep.states, time.Since(t0).Seconds())
		return false
	}
	path := filepath.Join(dir, "evidence", id+".violations.txt")
	os.WriteFile(path, []byte(strings.Join(left, "\n")+"\n"), 0o644)
	for i, v := range left {
		if i >= 20 {
			fmt.Printf("... and %d more\n", len(left)-i)
			break
		}
		fmt.Println(v)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return true
}

var assumptions = []string{
	"the Go compiler, go/ssa and the standard library behave as documented",
	"nodes, callbacks and writers supplied by the user do not modify the values the library holds, and report a failure through their result or the context they were given",
	"loops are abstracted: a fact is only used if it holds for every number of iterations",
}
