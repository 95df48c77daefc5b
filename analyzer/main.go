package main

// Driver: an -id C01 -tier quick -repo /repo -verif /verif

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkDef struct {
	f      func(p *Prog, rep *Report)
	rule   string   // what is decided, one or two sentences
	assume []string // what is trusted
}

var checks = map[string]checkDef{}

func main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where known-findings.txt and evidence/ are")
	verbose := flag.Bool("v", false, "print obligations")
	stop := flag.Bool("stop", false, "with several properties, stop at the first violation")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("AN_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(3) }()
	}
	t0 := time.Now()
	p, err := load(*repo)
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	ids := strings.Split(*id, ",")
	if *id == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, one := range ids {
		if len(ids) > 1 {
			t0 = time.Now()
		}
		c := runCheck(p, one, *tier, *verif, *verbose, t0)
		if c == 1 || code == 0 {
			code = c
		}
		if c == 1 && *stop {
			break
		}
	}
	os.Exit(code)
}

func runCheck(p *Prog, id, tier, verif string, verbose bool, t0 time.Time) int {
	def, ok := checks[id]
	if !ok {
		fmt.Println("ERROR: no check for", id)
		return 2
	}
	rep := newReport(id)
	rep.tier = tier
	def.f(p, rep)
	for i := range rep.viol {
		rep.viol[i].rule = strings.TrimSpace(rep.viol[i].rule)
	}
	known := readFindings(filepath.Join(verif, "known-findings.txt"), id)
	seen := map[string]bool{}
	printed := map[string]bool{}
	var bad []Violation
	for _, v := range rep.viol {
		k := v.key()
		if d, ok := known[k]; ok {
			if !printed[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, d)
				printed[k] = true
			}
			continue
		}
		if !seen[k+v.pos+v.what] {
			seen[k+v.pos+v.what] = true
			bad = append(bad, v)
		}
	}
	total := 0
	for _, n := range rep.obl {
		total += n
	}
	replay := filepath.Join(verif, "evidence", id+".replay.txt")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	_ = os.Remove(replay)
	if len(bad) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d violation(s) found by static analysis of the source\n", id, len(bad))
		for _, v := range bad {
			fmt.Fprintf(&b, "\n%s\n  rule      %s\n  construct %s\n  where     %s\n", v.what, v.rule, v.fn, v.pos)
			for _, s := range v.path {
				fmt.Fprintf(&b, "    via %s\n", s)
			}
		}
		if err := os.WriteFile(replay, []byte(b.String()), 0o644); err != nil {
			fmt.Println("ERROR:", err)
		}
		for i, v := range bad {
			if i < 20 {
				fmt.Printf("%s: [%s] %s (in %s)\n", v.pos, v.rule, v.what, v.fn)
			}
		}
	}
	if verbose {
		for _, k := range sortedKeys(rep.obl) {
			fmt.Printf("  obl %-40s %d\n", k, rep.obl[k])
		}
		for _, f := range sortedKeys(rep.funcs) {
			fmt.Println("  fn ", f)
		}
		for _, v := range bad {
			fmt.Println("  VIOL", v.rule, v.pos, v.what)
			for _, s := range v.path {
				fmt.Println("       ", s)
			}
		}
	}
	for _, u := range rep.undec {
		fmt.Println("UNDECIDED:", u)
	}
	for _, u := range rep.lost {
		fmt.Println("ERROR:", u)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rules := map[string]int{}
	for k, n := range rep.obl {
		rules[k] = n
	}
	samples := rep.samples
	if len(samples) == 0 {
		for _, k := range sortedKeys(rep.obl) {
			samples = append(samples, fmt.Sprintf("%s: %d obligation instance(s)", k, rep.obl[k]))
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation": def.rule,
			"obligations": total, "discharged": total - len(rep.viol) - len(rep.undec),
			"obligations_by_rule": rules,
			"functions_analysed":  sortedKeys(rep.funcs),
			"abstract_steps":      rep.states, "abstract_outcomes": rep.outs,
			"packages":  len(p.pkgs),
			"undecided": append([]string{}, rep.undec...), "samples": samples,
		},
		"assumptions": append(append([]string{}, def.assume...), baseAssumptions...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(bad),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if len(rep.lost) > 0 {
		if len(rep.undec) == 0 || total == 0 {
			return 2
		}
		// the analysis says what it did not understand: the rest holds
		fmt.Printf("PARTIAL property=%s the parts listed above were not decided\n", id)
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d wall=%.1fs\n", id, total, len(rep.funcs), time.Since(t0).Seconds())
	return 0
}

var baseAssumptions = []string{
	"the Go compiler and golang.org/x/tools/go/ssa translate the source faithfully",
	"the transfer functions of the analyzer (analyzer/exec.go, models.go) over-approximate Go's semantics and the documented behaviour of the standard library",
	"no use of unsafe, reflection writes, cgo or linkname in the repository (checked: none is imported)",
}

func (v Violation) key() string { return v.rule + "@" + v.fn }

// readFindings reads "finding: property=ID key=RULE@FUNCTION text" lines.
func readFindings(file, id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		k, d, ok := strings.Cut(rest, " :: ")
		if ok {
			r[strings.TrimSpace(k)] = strings.TrimSpace(d)
		}
	}
	return r
}
