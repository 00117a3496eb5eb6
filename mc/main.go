// Command mc is the bounded model checker of this directory: per property it enumerates a finite
// space of documents, rows, histories, faults or schedules completely and runs the library on every
// member of it, comparing with a reference model or a differential oracle.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type prop struct {
	id     string
	level  string
	what   string // what a state, a transition and a validated trace are
	assume []string
	run    func(*Ctx)
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

// Ctx is what a shard of a check works with.
type Ctx struct {
	Prop     string
	Thorough bool

	shard, n int64
	only     int64
	skipTo   int64
	ord      int64
	slot     int64
	name     string
	prefix   string // of case names
	deadline time.Time
	shm      []byte

	curDetail string
	rowsPer   int                                // of a document, where a check limits them
	full      bool                               // every transformation of every document
	mode      func(x string, d *Doc, rows []Row) // replaces the comparison of CheckXML

	r report
}

type violation struct {
	Ordinal int64
	Case    string
	Message string
	Detail  string
	Race    bool // found by the build with the race detector
}

type report struct {
	States, Transitions, Validated int64
	Cases                          int64
	Unspec                         map[string]int64
	Outcomes                       map[string]int64
	Bounds                         map[string]int64
	Samples                        []interface{}
	Viol                           []violation
	Known                          []violation
	Complete                       bool
	HarnessError                   string
}

type stopAll struct{}
type failed struct{ msg, detail string }

// Case runs fn if this shard owns it.
func (c *Ctx) Case(name string, fn func()) {
	ord := c.ord
	c.ord++
	if c.only >= 0 {
		if ord != c.only {
			if ord > c.only {
				panic(stopAll{})
			}
			return
		}
	} else if ord%c.n != c.shard {
		return
	}
	if time.Now().After(c.deadline) {
		c.r.Complete = false
		panic(stopAll{})
	}
	name = c.prefix + name
	c.name = name
	if c.shm != nil {
		binary.LittleEndian.PutUint64(c.shm[8*c.slot:], uint64(ord)+1)
	}
	c.r.Cases++
	if slowCases {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "SLOW %.2fs race=%v %s\n", d.Seconds(), raceBuild, name)
			}
		}()
	}
	c.guard(ord, name, fn)
}

var slowCases = os.Getenv("MC_SLOW") != ""

func (c *Ctx) guard(ord int64, name string, fn func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		v := violation{Ordinal: ord, Case: name, Race: raceBuild}
		switch x := r.(type) {
		case stopAll:
			panic(r)
		case failed:
			v.Message, v.Detail = x.msg, x.detail
		default:
			st := string(debug.Stack())
			if !strings.Contains(st, "flukeish/pmml/") {
				c.r.HarnessError = fmt.Sprintf("case %d %s: %v\n%s", ord, name, r, st)
				panic(stopAll{})
			}
			v.Message, v.Detail = fmt.Sprintf("the library panics: %v", r), c.curDetail+"\n"+st
		}
		if knownFindings[c.Prop+"/"+name] {
			c.r.Known = append(c.r.Known, v)
			return
		}
		if os.Getenv("MC_ALL") != "" { // list every failing case instead of stopping
			fmt.Fprintf(os.Stderr, "FAIL %d %s: %s\n", ord, name, strings.SplitN(v.Message, "\n", 2)[0])
			c.r.Known = append(c.r.Known, v)
			return
		}
		c.r.Viol = append(c.r.Viol, v)
		panic(stopAll{})
	}()
	c.curDetail = ""
	fn()
}

var knownFindings = map[string]bool{}

// Fail reports that the property is broken by the current case.
func (c *Ctx) Fail(detail string, format string, args ...interface{}) {
	panic(failed{fmt.Sprintf(format, args...), detail})
}

func (c *Ctx) Outcome(k string) {
	if len(c.r.Outcomes) < 60 || c.r.Outcomes[k] > 0 {
		c.r.Outcomes[k]++
	}
}
func (c *Ctx) Unspec(why string) { c.r.Unspec[why]++ }

// Bound notes the largest value reached of a quantity that the space is bounded by.
func (c *Ctx) Bound(k string, v int) {
	if int64(v) > c.r.Bounds[k] {
		c.r.Bounds[k] = int64(v)
	}
}
func (c *Ctx) Sample(v interface{}) {
	if len(c.r.Samples) < 1 {
		c.r.Samples = append(c.r.Samples, v)
	}
}

var verifDir = "/verif"

func main() {
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.Int64("shard", -1, "internal: shard number")
	n := flag.Int64("n", 8, "number of shards")
	only := flag.Int64("only", -1, "run only this case")
	shmPath := flag.String("shm", "", "internal: progress file")
	secs := flag.Int64("secs", 0, "internal deadline in seconds")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	raceBin := flag.String("racebin", "", "the same program built with -race, to run a second set of shards")
	slot := flag.Int64("slot", 0, "internal: number in the progress file")
	replay := flag.String("replay", "", "replay the case a replay file names")
	flag.Parse()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var ord int64
		bin := ""
		fmt.Sscanf(string(b), "property=%s tier=%s case=%d %s", id, tier, &ord, &bin)
		*only = ord
		if bin == "race" && !raceBuild {
			cmd := exec.Command(*raceBin, os.Args[1:]...)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			if cmd.Run() != nil {
				os.Exit(1)
			}
			return
		}
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	loadKnown(*id)
	if *secs == 0 {
		*secs = 240
		if *tier == "thorough" {
			*secs = 780
		}
	}
	if *shard >= 0 || *only >= 0 {
		worker(p, *tier == "thorough", *shard, *n, *only, *slot, *shmPath, time.Duration(*secs)*time.Second)
		return
	}
	os.Exit(parent(p, *tier, *n, *secs, *raceBin))
}

// known_findings.txt lines: finding: property=<id> case=<case name> <what fails>
var knownText = map[string]string{}

func loadKnown(id string) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" case=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" case=")
		name, text, _ := strings.Cut(rest, " ")
		knownFindings[id+"/"+name] = true
		knownText[name] = text
	}
}

func worker(p *prop, thorough bool, shard, n, only, slot int64, shmPath string, d time.Duration) {
	if !raceBuild {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(256 << 20)
	c := &Ctx{Prop: p.id, Thorough: thorough, shard: shard, n: n, only: only, slot: slot, deadline: time.Now().Add(d)}
	c.r = report{Unspec: map[string]int64{}, Outcomes: map[string]int64{}, Bounds: map[string]int64{}, Complete: true}
	if shmPath != "" {
		f, err := os.OpenFile(shmPath, os.O_RDWR, 0)
		if err == nil {
			c.shm, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "shm:", err)
			os.Exit(2)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopAll); !ok {
					c.r.HarnessError = fmt.Sprintf("generator: %v\n%s", r, debug.Stack())
				}
			}
		}()
		p.run(c)
	}()
	if shmPath == "" { // a replay
		for _, v := range c.r.Viol {
			fmt.Printf("case %d %s: %s\n%s\n", v.Ordinal, v.Case, v.Message, v.Detail)
			os.Exit(1)
		}
	}
	out, err := json.Marshal(c.r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "report:", err)
		os.Exit(2)
	}
	os.Stdout.WriteString("\nREPORT ")
	os.Stdout.Write(out)
	os.Stdout.WriteString("\n")
}

type shardRun struct {
	i    int64
	cmd  *exec.Cmd
	out  bytes.Buffer
	errb bytes.Buffer
	done chan error
}

func parseReport(b []byte) (*report, bool) {
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if strings.HasPrefix(sc.Text(), "REPORT ") {
			r := new(report)
			if json.Unmarshal([]byte(sc.Text()[7:]), r) == nil {
				return r, true
			}
		}
	}
	return nil, false
}

func parent(p *prop, tier string, n, secs int64, raceBin string) int {
	start := time.Now()
	self, _ := os.Executable()
	os.MkdirAll(filepath.Join(verifDir, "out"), 0o755)
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	shm, err := os.CreateTemp(filepath.Join(verifDir, "out"), "shm-*")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.Remove(shm.Name())
	shm.Truncate(4096)
	mem, err := syscall.Mmap(int(shm.Fd()), 0, 4096, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	at := func(i int64) int64 { return int64(binary.LittleEndian.Uint64(mem[8*i:])) - 1 }

	startShard := func(i, only int64, s int64) *shardRun {
		args := []string{"-prop", p.id, "-tier", tier, "-verif", verifDir, "-secs", fmt.Sprint(s),
			"-shard", fmt.Sprint(i % n), "-slot", fmt.Sprint(i), "-n", fmt.Sprint(n), "-shm", shm.Name(), "-only", fmt.Sprint(only)}
		r := &shardRun{i: i, done: make(chan error, 1)}
		bin := self
		if i >= n {
			bin = raceBin
		}
		r.cmd = exec.Command(bin, args...)
		procs := "1"
		if uncontrolled {
			procs = "4"
		}
		r.cmd.Env = append(os.Environ(), "GOMAXPROCS="+procs, "GORACE=halt_on_error=1")
		r.cmd.Stdout, r.cmd.Stderr = &r.out, &r.errb
		if os.Getenv("MC_ALL") != "" {
			r.cmd.Stderr = os.Stderr
		}
		r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := r.cmd.Start(); err != nil {
			r.done <- err
			return r
		}
		go func() { r.done <- r.cmd.Wait() }()
		return r
	}

	var viols []violation
	known := map[string]violation{}
	tot := report{Unspec: map[string]int64{}, Outcomes: map[string]int64{}, Bounds: map[string]int64{}, Complete: true}
	harness := ""

	const hang = 150 * time.Second
	shards := n
	if raceBin != "" {
		shards = 2 * n
	}
	runs := make([]*shardRun, shards)
	last := make([]int64, shards)
	since := make([]time.Time, shards)
	for i := range runs {
		runs[i] = startShard(int64(i), -1, secs)
		last[i], since[i] = -1, time.Now()
	}
	tail := func(b []byte) string {
		if len(b) > 6000 {
			b = append(append([]byte{}, b[:3000]...), b[len(b)-3000:]...)
		}
		return string(b)
	}
	// confirm reruns one case alone: it is a violation only if it ends abnormally again.
	confirm := func(i, ord int64, what, detail string) {
		r := startShard(i, ord, 3600)
		select {
		case err := <-r.done:
			if rep, ok := parseReport(r.out.Bytes()); ok && err == nil {
				if len(rep.Viol) > 0 {
					viols = append(viols, rep.Viol...)
				} else {
					harness = fmt.Sprintf("case %d: %s, but not when run alone\n%s", ord, what, detail)
				}
				return
			}
			viols = append(viols, violation{ord, "", what, tail(r.errb.Bytes()), i >= n})
		case <-time.After(hang):
			r.cmd.Process.Kill()
			viols = append(viols, violation{ord, "", "does not return", detail, i >= n})
		}
	}
	left := shards
	for left > 0 {
		time.Sleep(20 * time.Millisecond)
		for i, r := range runs {
			if r == nil {
				continue
			}
			select {
			case err := <-r.done:
				runs[i] = nil
				left--
				rep, ok := parseReport(r.out.Bytes())
				if err != nil || !ok {
					if len(viols) == 0 {
						ord := at(int64(i))
						if ord < 0 {
							harness = fmt.Sprintf("shard %d: %v\n%s", i, err, tail(r.errb.Bytes()))
						} else {
							confirm(int64(i), ord, fmt.Sprintf("the process dies (%v)", err), tail(r.errb.Bytes()))
						}
					}
					continue
				}
				if rep.HarnessError != "" {
					harness = rep.HarnessError
				}
				viols = append(viols, rep.Viol...)
				for _, k := range rep.Known {
					known[k.Case] = k
				}
				tot.States += rep.States
				tot.Transitions += rep.Transitions
				tot.Validated += rep.Validated
				tot.Cases += rep.Cases
				tot.Complete = tot.Complete && rep.Complete
				for k, v := range rep.Unspec {
					tot.Unspec[k] += v
				}
				for k, v := range rep.Outcomes {
					tot.Outcomes[k] += v
				}
				for k, v := range rep.Bounds {
					if v > tot.Bounds[k] {
						tot.Bounds[k] = v
					}
				}
				if len(tot.Samples) < 3 {
					tot.Samples = append(tot.Samples, rep.Samples...)
				}
			default:
				if o := at(int64(i)); o != last[i] {
					last[i], since[i] = o, time.Now()
				} else if time.Since(since[i]) > hang {
					r.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(2 * time.Second)
					r.cmd.Process.Kill()
					<-r.done
					runs[i] = nil
					left--
					if o < 0 {
						harness = fmt.Sprintf("shard %d makes no progress\n%s", i, tail(r.errb.Bytes()))
					} else {
						confirm(int64(i), o, "does not return", tail(r.errb.Bytes()))
					}
				}
			}
		}
		if len(viols) > 0 {
			for i, r := range runs {
				if r != nil {
					r.cmd.Process.Kill()
					<-r.done
					runs[i] = nil
					left--
				}
			}
		}
	}

	if len(viols) == 0 && harness != "" {
		fmt.Fprintln(os.Stderr, "the check itself failed:", harness)
		return 2
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Ordinal < viols[j].Ordinal })

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"samples": tot.Samples, "cases": tot.Cases, "rule": p.what, "unspecified_outcomes_skipped": tot.Unspec,
		"distinct_outcomes": tot.Outcomes, "bounds_reached": tot.Bounds,
		"exhaustive": tot.Complete && len(viols) == 0,
	}
	if tot.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	if p.level == "fault_enumeration" {
		cov["evaluations"] = tot.Transitions
		cov["distinct_nontrivial"] = tot.States
	} else {
		cov["states"] = tot.States
		cov["transitions"] = tot.Transitions
		cov["traces_validated_against_impl"] = tot.Validated
	}
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": p.assume, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if p.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, knownText[k])
	}
	if len(viols) > 0 {
		v := viols[0]
		path := filepath.Join(verifDir, "out", fmt.Sprintf("%s-%s-%d.txt", p.id, tier, v.Ordinal))
		bin := "plain"
		if v.Race {
			bin = "race"
		}
		os.WriteFile(path, []byte(fmt.Sprintf("property=%s tier=%s case=%d %s\n%s\n%s\n\n%s\n", p.id, tier, v.Ordinal, bin, v.Case, v.Message, v.Detail)), 0o644)
		msg := v.Message
		if len(msg) > 600 {
			msg = msg[:600] + "..."
		}
		fmt.Printf("case %d (%s): %s\n", v.Ordinal, v.Case, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		return 1
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d validated, complete=%v, %.1fs\n", p.id, tier, tot.Cases, tot.States, tot.Transitions, tot.Validated, tot.Complete, time.Since(start).Seconds())
	return 0
}
