package main

// The check driver: jobs of a property's check are shared out to worker processes.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Viol is one construct that breaks the property (or is not shown to keep it).
type Viol struct {
	Rule, Fn, Pos, Text, Why string
	Job                      string
}

func (v *Viol) key() string { return v.Rule + "|" + v.Fn + "|" + v.Text }

// Result is what a job reports.
type Result struct {
	Viols   []*Viol
	Count   map[string]int  // what was analysed, by kind
	Fns     map[string]bool // functions analysed
	Trusted map[string]bool // outside functions modelled
	Samples []string
	Secs    float64
}

func newResult() *Result {
	return &Result{Count: map[string]int{}, Fns: map[string]bool{}, Trusted: map[string]bool{}}
}

func (r *Result) viol(rule, fn, pos, text, why string) {
	v := &Viol{Rule: rule, Fn: fn, Pos: pos, Text: text, Why: why}
	for _, o := range r.Viols {
		if o.key() == v.key() {
			return
		}
	}
	r.Viols = append(r.Viols, v)
}

func (r *Result) merge(o *Result) {
	for _, v := range o.Viols {
		dup := false
		for _, w := range r.Viols {
			dup = dup || w.key() == v.key()
		}
		if !dup {
			r.Viols = append(r.Viols, v)
		}
	}
	for k, n := range o.Count {
		r.Count[k] += n
	}
	for k := range o.Fns {
		r.Fns[k] = true
	}
	for k := range o.Trusted {
		r.Trusted[k] = true
	}
	r.Samples = append(r.Samples, o.Samples...)
}

// Job is an independent part of a check.
type Job struct {
	Name string
	Run  func(P *Prog, r *Result)
}

// CheckDef is the check of one property.
type CheckDef struct {
	ID      string
	Rule    string // what the check decides, in words
	Assume  []string
	Jobs    func(P *Prog, thorough bool) []*Job
	Min     map[string]int // least counts: fewer means the check has lost its subject
	Trusted []string
	Limit   time.Duration // for a job of a quick check, if not a minute
}

var checks = map[string]*CheckDef{}

func register(c *CheckDef) { checks[c.ID] = c }

// protect runs f, turning a failure of the analyser into a violation.
func protect(r *Result, name string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			why := fmt.Sprint(x)
			if t, ok := x.(tooMuch); ok {
				why = t.why
			} else if os.Getenv("SA_TRACE") != "" {
				panic(x)
			}
			r.viol("undecided", name, "", "analysis of "+name+" did not finish", why)
		}
	}()
	f()
}

type wreq struct {
	Index int
}

// worker serves jobs by index on stdin/stdout.
func worker(P *Prog, d *CheckDef, thorough bool) {
	jobs := d.Jobs(P, thorough)
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	mark := markTabs()
	for in.Scan() {
		var k int
		if _, err := fmt.Sscan(in.Text(), &k); err != nil {
			break
		}
		r := newResult()
		t0 := time.Now()
		jobStart = t0
		if !thorough {
			jobLimit = 60 * time.Second
			if d.Limit != 0 {
				jobLimit = d.Limit
			}
		}
		protect(r, jobs[k].Name, func() { jobs[k].Run(P, r) })
		r.Secs = time.Since(t0).Seconds()
		for _, v := range r.Viols {
			if v.Job == "" {
				v.Job = jobs[k].Name
			}
		}
		out.Encode(r)
		resetTabs(mark)
	}
}

func runCheck(P *Prog, id string, tier string) int {
	d := checks[id]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	t0 := time.Now()
	thorough := tier == "thorough"
	jobs := d.Jobs(P, thorough)
	total := newResult()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(jobs) {
		n = len(jobs)
	}
	limit := 780 * time.Second
	if thorough {
		limit = 4 * time.Hour
	}
	if n <= 1 {
		for _, j := range jobs {
			r := newResult()
			protect(r, j.Name, func() { j.Run(P, r) })
			for _, v := range r.Viols {
				if v.Job == "" {
					v.Job = j.Name
				}
			}
			total.merge(r)
		}
	} else {
		var mu sync.Mutex
		next := 0
		secs := map[string]float64{}
		var wg sync.WaitGroup
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var cmd *exec.Cmd
				var stdin io.WriteCloser
				var dec *json.Decoder
				stop := func() {
					if cmd != nil {
						stdin.Close()
						cmd.Process.Kill()
						cmd.Wait()
						cmd = nil
					}
				}
				defer stop()
				for {
					mu.Lock()
					k := next
					next++
					mu.Unlock()
					if k >= len(jobs) {
						if cmd != nil {
							stdin.Close()
							cmd.Wait()
							cmd = nil
						}
						return
					}
					mu.Lock()
					enough := len(total.Viols) >= 40
					mu.Unlock()
					if enough {
						continue // the verdict is settled
					}
					left := limit - time.Since(t0)
					if left <= 0 {
						mu.Lock()
						total.viol("undecided", jobs[k].Name, "", "analysis of "+jobs[k].Name+" did not finish", "time limit reached")
						mu.Unlock()
						continue
					}
					if cmd == nil {
						cmd = exec.Command(os.Args[0], "worker", id, tier)
						cmd.Stderr = os.Stderr
						stdin, _ = cmd.StdinPipe()
						so, _ := cmd.StdoutPipe()
						if err := cmd.Start(); err != nil {
							mu.Lock()
							total.viol("undecided", jobs[k].Name, "", "analysis of "+jobs[k].Name+" did not finish", err.Error())
							mu.Unlock()
							cmd = nil
							return
						}
						dec = json.NewDecoder(bufio.NewReader(so))
					}
					fmt.Fprintln(stdin, k)
					r := newResult()
					var tm *time.Timer
					p := cmd.Process
					tm = time.AfterFunc(left, func() { p.Kill() })
					err := dec.Decode(r)
					tm.Stop()
					mu.Lock()
					if err != nil {
						total.viol("undecided", jobs[k].Name, "", "analysis of "+jobs[k].Name+" did not finish", "the analyser stopped: "+err.Error())
					} else {
						total.merge(r)
						secs[jobs[k].Name] += r.Secs
					}
					mu.Unlock()
					if err != nil {
						stop()
					}
				}
			}()
		}
		wg.Wait()
		if os.Getenv("SA_TIMES") != "" {
			var ks []string
			for k := range secs {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return secs[ks[i]] > secs[ks[j]] })
			for i, k := range ks {
				if i >= 25 {
					break
				}
				fmt.Printf("TIME %.2f %s\n", secs[k], k)
			}
		}
	}
	total.Count["jobs"] = len(jobs)
	for k, m := range d.Min {
		if len(total.Viols) < 40 && total.Count[k] < m {
			total.viol("coverage", id, "", fmt.Sprintf("only %d %s were found to analyse", total.Count[k], k), fmt.Sprintf("at least %d are expected: the check no longer reaches its subject", m))
		}
	}
	sort.Slice(total.Viols, func(i, j int) bool { return total.Viols[i].key() < total.Viols[j].key() })
	known := readKnown(id)
	var bad []*Viol
	var found []string
	for _, v := range total.Viols {
		if known[v.key()] {
			found = append(found, v.Rule+" "+v.Fn+": "+v.Text)
			continue
		}
		bad = append(bad, v)
	}
	for _, f := range found {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f)
	}
	writeEvidence(d, tier, total, len(bad), found, time.Since(t0))
	if len(bad) == 0 {
		var ks []string
		for k := range total.Count {
			ks = append(ks, fmt.Sprintf("%d %s", total.Count[k], k))
		}
		sort.Strings(ks)
		fmt.Printf("OK property=%s: %s (%.1fs)\n", id, strings.Join(ks, ", "), time.Since(t0).Seconds())
		return 0
	}
	rep := filepath.Join(verifDir(), "evidence", id+".violations.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: %s\n\n", id, d.Rule)
	for _, v := range bad {
		fmt.Fprintf(&b, "%s: %s: %s [rule %s]\n\t%s\n\tseen in: %s\n", v.Pos, v.Fn, v.Text, v.Rule, v.Why, v.Job)
	}
	os.WriteFile(rep, []byte(b.String()), 0o644)
	for i, v := range bad {
		if i >= 20 {
			fmt.Printf("... and %d more, see %s\n", len(bad)-i, rep)
			break
		}
		fmt.Printf("%s: %s: %s [rule %s] %s {%s}\n", v.Pos, v.Fn, v.Text, v.Rule, v.Why, v.Job)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

func verifDir() string {
	if d := os.Getenv("SA_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// readKnown reads the keys of the recorded findings of a property ("finding: property=<id> key=<key>").
func readKnown(id string) map[string]bool {
	m := map[string]bool{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		p := "finding: property=" + id + " key="
		if strings.HasPrefix(l, p) {
			m[strings.TrimPrefix(l, p)] = true
		}
	}
	return m
}

func sortedKeys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func writeEvidence(d *CheckDef, tier string, r *Result, bad int, found []string, dt time.Duration) {
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var counts []string
	for k, n := range r.Count {
		counts = append(counts, fmt.Sprintf("%d %s", n, k))
	}
	sort.Strings(counts)
	samples := r.Samples
	if len(samples) > 12 {
		var s []string
		for i := 0; i < 12; i++ {
			s = append(s, samples[i*len(samples)/12])
		}
		samples = s
	}
	cov := map[string]interface{}{
		"explanation":        "Static analysis of the type-checked SSA form of /repo's current source. Rule: " + d.Rule + " Analysed: " + strings.Join(counts, ", ") + ".",
		"counts":             r.Count,
		"functions_analysed": sortedKeys(r.Fns),
		"trusted_models":     sortedKeys(r.Trusted),
	}
	if len(samples) > 0 {
		cov["samples"] = samples
	}
	if n := r.Count["obligations"]; n > 0 {
		cov["obligations"] = n
		cov["discharged"] = n - r.Count["obligations failed"]
	}
	if len(found) > 0 {
		cov["known_findings"] = found
	}
	ev := map[string]interface{}{
		"property": d.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": d.Assume, "wall_s": dt.Seconds(), "violations": bad,
	}
	if d.Assume == nil {
		ev["assumptions"] = []string{}
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, d.ID+".json"), append(j, '\n'), 0o644)
}

// ---- symbol table marks ----

type tabMark struct{ syms, objs, dyn int }

func markTabs() tabMark { return tabMark{len(symtab), len(objtab), len(dynTypes)} }

func resetTabs(m tabMark) {
	dynTypes, dynNames = dynTypes[:m.dyn], dynNames[:m.dyn]
	for i := range symtab[m.syms:] {
		symtab[m.syms+i] = nil
	}
	symtab = symtab[:m.syms]
	for k, s := range symcons {
		if int(s) >= m.syms {
			delete(symcons, k)
		}
	}
	objtab = objtab[:m.objs]
	for k, o := range objcons {
		if int(o) >= m.objs {
			delete(objcons, k)
		}
	}
}
