package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Viol is one broken obligation: a rule instance on a named construct.
type Viol struct {
	Rule, At, Pos, Detail string
}

func (v Viol) Key() string { return v.Rule + "@" + v.At }

// Check collects the obligations of one property.
type Check struct {
	P       *Prog
	ID      string
	Tier    string
	Obs     int
	OKs     int
	Viols   []Viol
	seen    map[string]bool
	Rules   map[string]int
	Samples []string
	Fns     map[string]bool
	Paths   int
	States  int
	Calls   int
	Roots   []string
	Assume  []string
	debug   bool
}

// ob records one obligation. at names the construct independently of its position.
func (c *Check) ob(rule, at, pos string, ok bool, detail string, a ...interface{}) bool {
	c.Obs++
	c.Rules[rule]++
	if ok {
		c.OKs++
		if len(c.Samples) < 12 {
			s := rule + " at " + at + " (" + pos + ")"
			for _, x := range c.Samples {
				if x == s {
					return ok
				}
			}
			c.Samples = append(c.Samples, s)
		}
		return ok
	}
	v := Viol{Rule: rule, At: at, Pos: pos, Detail: fmt.Sprintf(detail, a...)}
	if !c.seen[v.Key()] {
		c.seen[v.Key()] = true
		c.Viols = append(c.Viols, v)
	}
	return ok
}

// need fails the check when an anchor the rules depend on cannot be found.
func (c *Check) need(ok bool, what string) bool {
	if !ok {
		c.ob("anchor", what, "-", false, "cannot find %s: the rule cannot be decided", what)
	}
	return ok
}

// run analyses one root and accounts for it.
func (c *Check) run(r *Run, fn *ssa.Function, args map[string]*Term, st *St) []Outcome {
	r.P = c.P
	if fn == nil {
		return nil
	}
	if st == nil {
		st = c.P.initialState()
	}
	outs := r.Root(fn, args, st)
	c.account(r, fn, len(outs))
	return outs
}

func (c *Check) account(r *Run, fn *ssa.Function, outs int) {
	for f := range r.FnSeen {
		c.Fns[ssaName(f)] = true
	}
	c.Paths += outs
	c.States += r.Stats.States
	c.Calls += r.Stats.Calls
	c.Roots = append(c.Roots, ssaName(fn))
	for _, u := range r.undecided {
		c.ob("decidable", ssaName(fn), c.P.posOf(fn.Pos()), false, "analysis undecided: %s", u)
	}
}

// atLeast is the guard against rules that match nothing.
func (c *Check) atLeast(rule string, n int) {
	if c.Rules[rule] < n {
		c.ob("instances", rule, "-", false, "rule %s applied to %d constructs, expected at least %d: its subject was not found", rule, c.Rules[rule], n)
	}
}

type finding struct {
	prop, key, text string
}

func loadFindings(verif string) ([]finding, error) {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) < 3 || !strings.HasPrefix(fs[0], "property=") || !strings.HasPrefix(fs[1], "key=") {
			return nil, fmt.Errorf("malformed finding: %s", l)
		}
		out = append(out, finding{fs[0][9:], fs[1][4:], fs[2]})
	}
	return out, sc.Err()
}

var checks = map[string]func(*Check){}
var explain = map[string]string{}

func runCheck(p *Prog, perr error, id, tier string) (c *Check) {
	c = &Check{P: p, ID: id, Tier: tier, seen: map[string]bool{}, Rules: map[string]int{}, Fns: map[string]bool{}}
	defer func() {
		if x := recover(); x != nil {
			c.ob("analysis", "panic", "-", false, "the analysis failed: %v\n%s", x, debug.Stack())
		}
	}()
	if perr != nil {
		c.ob("analysis", "load", "-", false, "the program cannot be loaded: %v", perr)
		return c
	}
	f := checks[id]
	if f == nil {
		c.ob("analysis", "check", "-", false, "no check for %s", id)
		return c
	}
	f(c)
	if c.Obs == 0 {
		c.ob("instances", "check", "-", false, "no obligation was generated")
	}
	return c
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// finish prints the verdict, writes evidence and the replay report.
func (c *Check) finish(verif string, start time.Time) int {
	kf, err := loadFindings(verif)
	if err != nil {
		c.ob("analysis", "known-findings", "-", false, "%v", err)
	}
	var open []Viol
	var known []string
	for _, v := range c.Viols {
		matched := false
		for _, k := range kf {
			if k.prop == c.ID && k.key == v.Key() {
				matched = true
				known = append(known, k.text)
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.text)
			}
		}
		if !matched {
			open = append(open, v)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":           explain[c.ID],
			"obligations":           c.Obs,
			"discharged":            c.OKs,
			"rule_instances":        c.Rules,
			"functions_analysed":    len(c.Fns),
			"functions":             sortedKeys(c.Fns),
			"roots":                 c.Roots,
			"abstract_states":       c.States,
			"call_sites_visited":    c.Calls,
			"abstract_paths_to_end": c.Paths,
			"samples":               c.Samples,
			"known_findings":        known,
		},
		"assumptions": c.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	replay := filepath.Join(dir, c.ID+".replay.txt")
	os.Remove(replay)
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d roots=%d states=%d\n", c.ID, c.Obs, len(c.Fns), len(c.Roots), c.States)
		return 0
	}
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "rule      %s\nconstruct %s\nposition  %s\n%s\n\n", v.Rule, v.At, v.Pos, v.Detail)
	}
	fmt.Fprintf(&sb, "reproduce: cd %s && ./check.sh %s %s\n", verif, c.ID, c.Tier)
	os.WriteFile(replay, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}
