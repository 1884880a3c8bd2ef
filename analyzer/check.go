package main

// The check framework: jobs, obligations, evidence, verdicts.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const verifDir = "/verif"

type Violation struct {
	Where  string `json:"where"`
	Rule   string `json:"rule"`
	Detail string `json:"detail"`
	Path   string `json:"path,omitempty"`
}

// Result is what a worker found.
type Result struct {
	Oblig    int
	Disch    int
	Outcomes int
	Steps    int
	Frames   int
	Fields   int
	Loops    int
	Drivers  []string
	Funcs    map[string]int
	Samples  []string
	Viol     []Violation
	Count    map[string]int
	Rules    map[string]int
}

type Ctx struct {
	id, tier string
	w        *World
	failed   bool // the last obligation
	Result
}

// Job is one independent piece of a check.
type Job struct {
	name string
	cost int // seconds, roughly
	f    func(c *Ctx)
}

type Check struct {
	id         string
	level      string
	technique  string
	explain    string
	assume     []string
	min        int // obligations expected at least
	needWorld  bool
	jobs       func(tier string) []Job
	thoroughIs string
}

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.id] != nil {
		panic("duplicate check " + c.id)
	}
	checks[c.id] = c
}

// ok records one obligation and whether it was discharged.
func (c *Ctx) ok(cond bool, where, rule, format string, a ...interface{}) bool {
	c.Oblig++
	if c.Rules == nil {
		c.Rules = map[string]int{}
	}
	c.Rules[rule]++
	c.failed = !cond
	if cond {
		c.Disch++
		return true
	}
	c.Viol = append(c.Viol, Violation{Where: where, Rule: rule, Detail: clip(fmt.Sprintf(format, a...))})
	return false
}

func (c *Ctx) fail(where, rule, format string, a ...interface{}) {
	c.ok(false, where, rule, format, a...)
}

// pathOf adds the path to the violation just found; a path that turns out to be contradictory is no violation.
func (c *Ctx) pathOf(v *State) {
	if n := len(c.Viol); n > 0 && v != nil && c.failed && v.facts.refute() {
		c.Viol = c.Viol[:n-1]
		c.Disch++
		c.failed = false
		c.count("contradictory_paths", 1)
		return
	}
	if n := len(c.Viol); n > 0 && v != nil && c.Viol[n-1].Path == "" && c.failed {
		c.Viol[n-1].Path = clip(strings.Join(v.trail, "; "))
	}
}

func (c *Ctx) count(k string, n int) {
	if c.Count == nil {
		c.Count = map[string]int{}
	}
	c.Count[k] += n
}

func (c *Ctx) sample(s string) {
	if len(c.Samples) < 4 {
		c.Samples = append(c.Samples, clip(s))
	}
}

// drive runs a driver and accounts for it; undecided analyses are violations.
func (c *Ctx) drive(name string, prep func(in *Interp, st *State)) *Run {
	r := c.w.drive(name, prep)
	c.account(r)
	return r
}

func (c *Ctx) account(r *Run) {
	outs := r.outs[:0]
	for _, o := range r.outs {
		g, dead := o.st.facts.tighten()
		if dead {
			c.count("contradictory_paths", 1)
			continue
		}
		o.st.facts = g
		outs = append(outs, o)
	}
	r.outs = outs
	c.Drivers = append(c.Drivers, r.name)
	c.Outcomes += len(r.outs)
	c.Steps += r.in.steps
	c.Loops += r.in.nloops
	if c.Funcs == nil {
		c.Funcs = map[string]int{}
	}
	for f, n := range r.in.funcs {
		c.Funcs[f] += n
	}
	c.ok(r.und == "", r.name, "every path is decided", "undecided: %s", r.und)
}

func (c *Ctx) params(name string) *Params {
	p := &Params{types: map[string]TypeT{}}
	if fn := c.w.drv.Func(name); fn != nil {
		for _, x := range fn.Params {
			p.types[x.Name()] = x.Type()
		}
	}
	return p
}

// ---- running ----

func runJobs(ch *Check, tier string, pick func(i int) bool, done func(Result)) (res Result) {
	c := &Ctx{id: ch.id, tier: tier}
	jobs := ch.jobs(tier)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("XTA_CRASH") != "" {
				panic(r)
			}
			c.fail("the analysed tree", "the tree can be analysed", "%v", r)
		}
		res = c.Result
	}()
	if ch.needWorld {
		c.w = load(verifDir + "/drivers")
		defer c.w.close()
	}
	for i, j := range jobs {
		if !pick(i) {
			continue
		}
		t := time.Now()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("XTA_CRASH") != "" {
						panic(r)
					}
					c.fail(j.name, "every path is decided", "analysis failed: %v", r)
				}
			}()
			j.f(c)
		}()
		if done != nil {
			done(c.Result)
		}
		if os.Getenv("XTA_TIME") != "" {
			fmt.Fprintf(os.Stderr, "%s: %s %.1fs\n", ch.id, j.name, time.Since(t).Seconds())
		}
	}
	return
}

func merge(rs []Result) Result {
	r := Result{Funcs: map[string]int{}, Count: map[string]int{}, Rules: map[string]int{}}
	for _, x := range rs {
		r.Oblig += x.Oblig
		r.Disch += x.Disch
		r.Outcomes += x.Outcomes
		r.Steps += x.Steps
		r.Frames += x.Frames
		r.Fields += x.Fields
		r.Loops += x.Loops
		r.Drivers = append(r.Drivers, x.Drivers...)
		for k, v := range x.Funcs {
			r.Funcs[k] += v
		}
		for k, v := range x.Count {
			r.Count[k] += v
		}
		for k, v := range x.Rules {
			r.Rules[k] += v
		}
		r.Samples = append(r.Samples, x.Samples...)
		r.Viol = append(r.Viol, x.Viol...)
	}
	sort.Strings(r.Drivers)
	return r
}

func workMain(id, tier string, i, n int, out string) {
	ch := checks[id]
	save := func(res Result) {
		b, _ := json.Marshal(res)
		must(os.WriteFile(out+".tmp", b, 0o644))
		must(os.Rename(out+".tmp", out))
	}
	save(runJobs(ch, tier, func(k int) bool { return k%n == i }, save))
}

func checkMain(id, tier string) int {
	ch := checks[id]
	if ch == nil {
		fmt.Println("no such check:", id)
		return 1
	}
	t0 := time.Now()
	jobs := ch.jobs(tier)
	n := len(jobs)
	if n > 8 {
		n = 8
	}
	tot := 0
	for _, j := range jobs {
		tot += j.cost
	}
	if tot <= 4 && n > 2 {
		n = 2
	}
	var rs []Result
	if n < 1 {
		rs = []Result{runJobs(ch, tier, func(int) bool { return true }, nil)}
	} else {
		dir, err := os.MkdirTemp("", "xtaw-")
		must(err)
		defer os.RemoveAll(dir)
		rs = make([]Result, n)
		var wg sync.WaitGroup
		var again sync.Mutex
		limit := make(chan struct{})
		var once, found sync.Once
		stop := func() { once.Do(func() { close(limit) }) }
		max := 400 * time.Second
		if tier == "thorough" {
			max = 820 * time.Second
		}
		time.AfterFunc(max, stop)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				out := filepath.Join(dir, fmt.Sprint(i))
				run := func() (error, bool) {
					cmd := exec.Command(self(), "work", id, tier, fmt.Sprint(i), fmt.Sprint(n), out)
					cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
					cmd.Stderr = os.Stderr
					if err := cmd.Start(); err != nil {
						return err, false
					}
					fin := make(chan error, 1)
					go func() { fin <- cmd.Wait() }()
					select {
					case err := <-fin:
						return err, true
					case <-limit:
						cmd.Process.Kill()
						<-fin
						return fmt.Errorf("stopped after %.0f s", time.Since(t0).Seconds()), false
					}
				}
				err, ended := run()
				if _, e := os.Stat(out); err != nil && ended && e != nil {
					// Ended from outside (memory): once more, one part at a time.
					again.Lock()
					err, _ = run()
					again.Unlock()
				}
				b, err2 := os.ReadFile(out)
				if err2 == nil {
					err2 = json.Unmarshal(b, &rs[i])
				}
				if len(rs[i].Viol) > 0 {
					found.Do(func() { time.AfterFunc(20*time.Second, stop) })
				}
				if err != nil || err2 != nil {
					rs[i].Oblig++
					rs[i].Viol = append(rs[i].Viol, Violation{Where: fmt.Sprintf("part %d of %d", i, n), Rule: "every path is decided", Detail: fmt.Sprintf("the analysis did not finish: %v", err)})
				}
			}(i)
		}
		wg.Wait()
	}
	r := merge(rs)
	if r.Oblig < ch.min && len(r.Viol) == 0 {
		r.Viol = append(r.Viol, Violation{Where: "coverage", Rule: "nothing is skipped", Detail: fmt.Sprintf("only %d obligations, at least %d expected", r.Oblig, ch.min)})
	}
	report(ch, tier, r, time.Since(t0).Seconds())
	if len(r.Viol) > 0 {
		return 1
	}
	return 0
}

func report(ch *Check, tier string, r Result, wall float64) {
	ev := filepath.Join(verifDir, "evidence")
	os.MkdirAll(ev, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fn := make([]string, 0, len(r.Funcs))
	for f := range r.Funcs {
		fn = append(fn, strings.ReplaceAll(f, modPath, "xtorm"))
	}
	sort.Strings(fn)
	if len(r.Samples) > 8 {
		r.Samples = r.Samples[:8]
	}
	cov := map[string]interface{}{
		"explanation":         ch.explain,
		"obligations":         r.Oblig,
		"discharged":          r.Disch,
		"obligations_by_rule": r.Rules,
		"samples":             r.Samples,
	}
	if len(fn) > 0 {
		cov["functions_analysed"] = len(fn)
		cov["functions"] = fn
		cov["entry_points"] = r.Drivers
		cov["abstract_paths"] = r.Outcomes
		cov["instructions_interpreted"] = r.Steps
		cov["loops_summarised"] = r.Loops
	}
	if r.Frames > 0 {
		cov["frames_decoded"] = r.Frames
	}
	if r.Fields > 0 {
		cov["protobuf_fields_decoded"] = r.Fields
	}
	for k, v := range r.Count {
		cov[k] = v
	}
	doc := map[string]interface{}{
		"property":    ch.id,
		"tier":        tier,
		"seed":        seed,
		"level":       ch.level,
		"coverage":    cov,
		"assumptions": ch.assume,
		"wall_s":      wall,
		"violations":  len(r.Viol),
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	must(os.WriteFile(filepath.Join(ev, ch.id+".json"), append(b, '\n'), 0o644))
	if len(r.Viol) > 0 {
		rp := filepath.Join(ev, ch.id+".violation.txt")
		var sb strings.Builder
		for i, v := range r.Viol {
			if i >= 40 {
				fmt.Fprintf(&sb, "... and %d more\n", len(r.Viol)-i)
				break
			}
			fmt.Fprintf(&sb, "construct: %s\nrule: %s\nfound: %s\n", v.Where, v.Rule, v.Detail)
			if v.Path != "" {
				fmt.Fprintf(&sb, "path: %s\n", v.Path)
			}
			sb.WriteString("\n")
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, v := range r.Viol {
			if i >= 5 {
				break
			}
			fmt.Printf("%s: %s: %s\n", v.Where, v.Rule, v.Detail)
			if v.Path != "" {
				fmt.Printf("   path: %s\n", v.Path)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.id, rp)
		return
	}
	fmt.Printf("%s: %d obligations discharged (%d abstract paths, %d functions) in %.1f s\n", ch.id, r.Disch, r.Outcomes, len(r.Funcs), wall)
}

func self() string {
	if e, err := os.Executable(); err == nil {
		return e
	}
	return os.Args[0]
}

// manifest prints the registered checks as MANIFEST.json.
func manifest() {
	var list []interface{}
	for _, id := range sortedKeys(checks) {
		ch := checks[id]
		list = append(list, map[string]string{
			"property":      id,
			"quick_cmd":     "bash run.sh " + id + " quick",
			"thorough_cmd":  "bash run.sh " + id + " thorough",
			"evidence_file": "evidence/" + id + ".json",
			"technique":     ch.technique,
			"level":         ch.level,
			"level_note":    ch.explain + " Assumes: " + strings.Join(ch.assume, "; ") + ". Anything the analysis cannot decide is reported as a violation.",
		})
	}
	doc := map[string]interface{}{
		"version":   1,
		"setup_cmd": "cd analyzer && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o /dev/null .",
		"checks":    list,
	}
	var na []interface{}
	for _, x := range notApplicable {
		if checks[x[0]] == nil {
			na = append(na, map[string]string{"property": x[0], "reason": x[1]})
		}
	}
	doc["not_applicable"] = na
	b, _ := json.MarshalIndent(doc, "", " ")
	fmt.Println(string(b))
}

var notApplicable = [][2]string{
	{"N01", "quantifies over wall-clock time: whether a blocked read or write returns soon after cancellation depends on the runtime and the kernel, and the source offers no construct (the deadline is set once, before the write) whose presence or absence static analysis could equate with it"},
	{"N02", "quantifies over what the MySQL server does with the bytes, whose source is not here; the part this repository decides (which statements are sent, in which order) is C10 and C11"},
}
