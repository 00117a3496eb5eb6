package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif.local/mc/vrt"
)

func init() {
	register(&prop{id: "C11", level: "model_checking",
		what:   "one state per explored schedule (thread programs, start order, preemptions at numbered scheduling points of the instrumented library); one transition per call of Evaluate or Verify executed under it; one validated trace per schedule whose every result, and every later sequential result, was compared with the sequential ones. A second build of the same exploration runs under the race detector with a scheduler it cannot see, so that every pair of accesses which the library leaves unordered is reported in each schedule.",
		assume: []string{"switches happen between statements of the library; accesses inside one statement are covered by the race detector instead", "the Go race detector's bounded shadow history"},
		run:    runC11})
}

type cop struct {
	row    int // -1: Verify
	shared bool
}

func (o cop) String() string {
	if o.row < 0 {
		return "Verify"
	}
	if o.shared {
		return fmt.Sprintf("shared row %d", o.row)
	}
	return fmt.Sprintf("row %d", o.row)
}

type cprog [][]cop

func (p cprog) String() string {
	var s []string
	for _, t := range p {
		s = append(s, fmt.Sprint(t))
	}
	return strings.Join(s, " || ")
}

// conc explores the schedules of one thread program on one document.
type conc struct {
	c    *Ctx
	xml  string
	rows []Row
	prog cprog
	base []Res
	verr string
	p    *models.PMML // decoded once; models are built from it afresh
	cold bool         // decode afresh for every schedule
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return "error"
}

func (k *conc) fail(ord []int, pre []vrt.Pre, f string, a ...interface{}) {
	k.c.Fail(k.xml, "%v, start order %v, preemptions %v: %s", k.prog, ord, pre, fmt.Sprintf(f, a...))
}

type cres struct {
	out  evaluation.DataRow
	err  error
	boom string
}

// one runs one schedule and returns the number of scheduling points passed and whether all of the
// preemptions took place.
func (k *conc) one(ord []int, pre []vrt.Pre) vrt.Trace {
	if k.cold {
		k.p, _ = decode(k.xml)
	}
	m, err := modelOf(k.p)
	if err != nil {
		k.fail(ord, pre, "building the model: %v", err)
	}
	n := len(k.prog)
	shared := map[int]evaluation.DataRow{}
	objs := make([][]evaluation.DataRow, n)
	res := make([][]cres, n)
	for t, ops := range k.prog {
		res[t] = make([]cres, len(ops))
		for _, o := range ops {
			var d evaluation.DataRow
			if o.row >= 0 {
				if d = shared[o.row]; !o.shared || d == nil {
					d = dataRow(k.rows[o.row])
				}
				if o.shared {
					shared[o.row] = d
				}
			}
			objs[t] = append(objs[t], d)
		}
	}
	var wg sync.WaitGroup
	if !uncontrolled {
		vrt.Begin(n, ord, pre)
	}
	for t := range k.prog {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			if !uncontrolled {
				defer vrt.Leave(t)
				vrt.Enter(t)
			}
			for i, o := range k.prog[t] {
				k.step(m, o, objs[t][i], &res[t][i])
			}
		}(t)
	}
	wg.Wait()
	tr := vrt.Trace{}
	if !uncontrolled {
		tr = vrt.End()
	}
	k.c.r.States++
	for t, ops := range k.prog {
		for i, o := range ops {
			k.c.r.Transitions++
			r := res[t][i]
			if r.boom != "" {
				k.fail(ord, pre, "thread %d, %v panics: %s", t, o, r.boom)
			}
			if o.row < 0 {
				if errText(r.err) != k.verr {
					k.fail(ord, pre, "thread %d: Verify gives %v", t, r.err)
				}
			} else if got := toRes(r.out, r.err); !identical(got, k.base[o.row]) {
				k.fail(ord, pre, "thread %d: %v gives %v, alone %v", t, o, got, k.base[o.row])
			}
		}
	}
	for i := range k.rows {
		if got := score(m, k.rows[i]); !identical(got, k.base[i]) {
			k.fail(ord, pre, "afterwards row %d gives %v, alone %v", i, got, k.base[i])
		}
	}
	k.c.r.Validated++
	return tr
}

func (k *conc) step(m evaluation.Model, o cop, d evaluation.DataRow, r *cres) {
	defer func() {
		if x := recover(); x != nil {
			r.boom = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	if o.row < 0 {
		r.err = m.Verify()
	} else {
		r.out, r.err = m.Evaluate(d)
	}
}

// uncontrolled: the library starts goroutines or waits in ways the scheduler does not know.
var uncontrolled = os.Getenv("MC_UNCONTROLLED") != ""

// explore runs every schedule with up to bound preemptions that begins with the given ones. The first
// preemption's position is taken from chunk ch of nch only.
func (k *conc) explore(ord []int, pre []vrt.Pre, bound, from, ch, nch int) {
	if time.Now().After(k.c.deadline) {
		k.c.r.Complete = false
		panic(stopAll{})
	}
	tr := k.one(ord, pre)
	if uncontrolled {
		for i := 0; i < 200; i++ {
			k.one(ord, nil)
		}
		return
	}
	if bound == 0 {
		return
	}
	k.c.Bound("scheduling points in a run", len(tr.Who))
	for at := from; at < len(tr.Who); at++ {
		if len(pre) == 0 && at%nch != ch {
			continue
		}
		for to := range k.prog {
			if int(tr.Who[at]) == to || at > tr.Ends[to] {
				continue // it runs already, or has ended
			}
			k.explore(ord, append(append([]vrt.Pre{}, pre...), vrt.Pre{At: at, To: to}), bound-1, at+1, ch, nch)
		}
	}
}

// program registers the cases that explore one program.
func (c *Ctx) program(name, xml string, rows []Row, prog cprog, bound int, cold bool) {
	nch := 1
	if bound > 1 {
		nch = 16
	}
	perms(len(prog), func(ord []int) {
		for ch := 0; ch < nch; ch++ {
			c.Case(fmt.Sprintf("%s %v order %v bound %d cold=%v part %d of %d", name, prog, ord, bound, cold, ch, nch), func() {
				c.curDetail = xml
				k := &conc{c: c, xml: xml, rows: rows, prog: prog, cold: cold}
				k.prep()
				c.Bound(fmt.Sprintf("preemptions, %d threads, all schedules", len(prog)), bound)
				k.explore(ord, nil, bound, 1, ch, nch)
				c.Outcome(fmt.Sprintf("%d threads, Verify fails: %v", len(prog), k.verr != ""))
				if ch == 0 {
					c.Sample(map[string]interface{}{"model": name, "program": prog.String(), "bound": bound, "race detector": raceBuild})
				}
			})
		}
	})
}

func runC11(c *Ctx) {
	items := zoo()
	own := func(r int) cop { return cop{r, false} }
	shd := func(r int) cop { return cop{r, true} }
	verify := cop{-1, false}
	for zi := range items {
		it := &items[zi]
		d := it.verification()
		x := d.XML()
		small := it.doc.Model.Kind != "mining"
		run := func(prog cprog, bound int, cold bool) {
			c.program(it.name, x, it.rows, prog, bound, cold)
		}
		two := func(a, b cop) cprog { return cprog{{a}, {b}} }
		b1, b2 := 1, 2
		switch {
		case raceBuild && !c.Thorough:
			b2 = 1
			if !small {
				b1, b2 = 0, 1
			}
		case !small && !c.Thorough:
			b2 = 1
		}
		run(two(own(2), own(4)), b2, false)
		run(two(shd(2), shd(2)), b2, false)
		run(two(own(0), own(3)), map[bool]int{true: b2, false: b1}[c.Thorough], false)
		for i := range it.rows {
			for j := 0; j <= i; j++ {
				run(two(own(i), own(j)), b1, false)
			}
			run(two(shd(i), shd(i)), b1, false)
			if c.Thorough || i == 2 || small && i%2 == 0 {
				run(two(own(i), verify), min(b1, 1), false)
			}
		}
		run(two(own(2), own(4)), b1, true)
		run(two(own(0), own(0)), b1, true)
		run(two(verify, verify), b1, false)
		run(cprog{{own(0), own(2)}, {own(4), own(0)}}, b1, false)
		long := b1 // of the long programs
		if !c.Thorough && (raceBuild || !small) {
			long = 0
		}
		run(cprog{{own(3), own(0)}, {own(3), own(0)}}, long, true)
		run(cprog{{own(2)}, {own(4)}, {own(0)}}, b1, false)
		run(cprog{{shd(4)}, {shd(4)}, {verify}}, min(long, 1), false)
	}
	if raceBuild {
		racedDeep = c.Thorough
		fams := []string{"C01", "C05", "C06", "C08"}
		if c.Thorough {
			fams = []string{"C01", "C03", "C05", "C06", "C08", "C02", "C04", "C07"}
		}
		c.Families(c.racesOf, false, fams...)
	}
}

// racesOf scores the rows of a document on one model forwards in one thread and backwards in another,
// one thread after the other in both orders. Under the race detector, which does not see that the
// threads take turns, every access that the library leaves unordered between them is reported. Documents that
// execute the same set of statements as an earlier one are passed over.
var racedDeep bool
var racedShapes = map[string]bool{}
var racedSites = map[vrt.Sites]bool{}

func (c *Ctx) racesOf(x string, d *Doc, rows []Row) {
	c.curDetail = x
	k := &conc{c: c, xml: x, rows: rows, prog: cprog{nil, nil}}
	if !racedDeep { // quick: one document per shape, a shape being the text without its digits
		shape := strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return -1
			}
			return r
		}, x)
		if racedShapes[shape] {
			c.Outcome("same document as an earlier one but for digits")
			return
		}
		racedShapes[shape] = true
	}
	vrt.Passed()
	p, err := decode(x)
	if err != nil {
		c.Outcome("refused")
		return
	}
	k.p = p
	m, err := modelOf(p)
	if err != nil {
		c.Outcome("refused")
		return
	}
	for i, r := range rows {
		k.base = append(k.base, score(m, r))
		k.prog[0] = append(k.prog[0], cop{i, false})
		k.prog[1] = append([]cop{{i, true}}, k.prog[1]...)
	}
	k.verr = errText(m.Verify())
	sites := vrt.Passed()
	if racedSites[sites] {
		c.Outcome("executes the same statements as an earlier document")
		return
	}
	racedSites[sites] = true
	k.prog[1] = append(k.prog[1], cop{row: -1})
	k.one([]int{0, 1}, nil)
	k.cold = true
	k.one([]int{1, 0}, nil)
}

func (k *conc) prep() {
	p, err := decode(k.xml)
	if err != nil {
		k.c.Fail(k.xml, "the document is refused: %v", err)
	}
	k.p = p
	for _, r := range k.rows {
		m, err := build(k.xml)
		if err != nil {
			k.c.Fail(k.xml, "the document is refused: %v", err)
		}
		n := vrt.Points()
		k.base = append(k.base, score(m, r))
		if vrt.Points() == n {
			panic("the library is not instrumented")
		}
	}
	m, _ := build(k.xml)
	k.verr = errText(m.Verify())
}
