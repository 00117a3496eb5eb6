package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/flukeish/pmml/models"

	"verif.local/mc/vrt"
)

func init() {
	register(&prop{id: "C12", level: "model_checking",
		what:   "one state per explored assignment of iteration orders to the map ranges that an operation executes (decoding and building, scoring one row, verifying) in the instrumented library; one transition per operation executed under such an assignment; one validated trace per assignment whose outcome was bit-identical to that of the sorted orders. All orders of all ranges where their number is within the bound, otherwise every order of each single range (and of pairs at the thorough tier), and the same order everywhere.",
		assume: []string{"ranges inside the standard library and its own sources of randomness are as documented (fmt and encoding/xml are deterministic)", "maps of more than 4 keys: each key first, each key last, every adjacent swap and the reverse, instead of all orders"},
		run:    runC12})
}

// ordersOfN lists the orders tried for a range over n keys, without the sorted one.
func ordersOfN(n int) [][]int {
	if o, ok := orderCache[n]; ok {
		return o
	}
	var out [][]int
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	seen := map[string]bool{fmt.Sprint(id): true}
	add := func(p []int) {
		if k := fmt.Sprint(p); !seen[k] {
			seen[k] = true
			out = append(out, append([]int{}, p...))
		}
	}
	if n <= 4 {
		perms(n, add)
	} else {
		r := make([]int, n)
		for i := range r {
			r[i] = n - 1 - i
		}
		add(r)
		for i := 0; i < n; i++ {
			rest := append(append([]int{}, id[:i]...), id[i+1:]...)
			add(append([]int{i}, rest...))
			add(append(append([]int{}, rest...), i))
			if i+1 < n {
				q := append([]int{}, id...)
				q[i], q[i+1] = q[i+1], q[i]
				add(q)
			}
		}
	}
	orderCache[n] = out
	return out
}

var orderCache = map[int][][]int{}

// fact is the number of orders of n keys, or more than any bound.
func fact(n int) int {
	if n > 9 {
		return 1 << 30
	}
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

// orders runs op under every explored assignment and calls judge with its outcome and a description.
func (c *Ctx) orders(op func() interface{}, same func(a, b interface{}) bool, limit, pairs int, fail func(got, want interface{}, how string)) {
	dev := map[int][]int{}
	var uniform func(site string, n int) []int
	run := func() (interface{}, []vrt.Choice) {
		vrt.Log = nil
		vrt.Chooser = func(idx int, site string, n int) []int {
			if uniform != nil {
				return uniform(site, n)
			}
			if p := dev[idx]; len(p) == n {
				return p
			}
			return nil
		}
		defer func() { vrt.Chooser = nil }()
		r := op()
		c.r.States++
		c.r.Transitions++
		return r, vrt.Log
	}
	want, log := run()
	describe := func(l []vrt.Choice) string {
		var s []string
		for i, p := range dev {
			if i < len(l) {
				s = append(s, fmt.Sprintf("range %d at %s over %d keys in order %v", i, l[i].Site, l[i].N, p))
			}
		}
		sortStrings(s)
		return strings.Join(s, ", ")
	}
	check := func(got interface{}, how string) {
		if !same(got, want) {
			fail(got, want, how)
		}
		c.r.Validated++
	}
	// the run time's own orders
	for i := 0; i < 2; i++ {
		check(op(), "the run time's order")
		c.r.Transitions++
	}
	if len(log) == 0 {
		return
	}
	c.Bound("ranges over two or more keys in one operation", len(log))
	total := 1
	for _, l := range log {
		c.Bound("keys in a range", l.N)
		if total *= fact(l.N); total > limit {
			break
		}
	}
	if total <= limit {
		// every combination of orders, by depth-first search over the ranges as they come
		var rec func(from int)
		rec = func(from int) {
			got, l := run()
			check(got, describe(l))
			for i := from; i < len(l); i++ {
				perms(l[i].N, func(p []int) {
					if isID(p) {
						return
					}
					dev[i] = p
					rec(i + 1)
				})
				delete(dev, i)
			}
		}
		rec(0)
		c.Outcome("all combinations of orders")
		return
	}
	c.Outcome("orders deviating in single ranges, and uniformly")
	var rec func(from, left int)
	rec = func(from, left int) {
		var l []vrt.Choice
		if len(dev) > 0 {
			var got interface{}
			got, l = run()
			check(got, describe(l))
		} else {
			l = log
		}
		if left == 0 {
			return
		}
		occ := map[vrt.Choice]int{}
		for i := from; i < len(l); i++ {
			o := vrt.Choice{Site: l[i].Site, N: min(l[i].N, 13)}
			if occ[o]++; c.mode != nil && occ[o] > 2 {
				continue // in a family, the first two times that a range is executed
			}
			for j, p := range ordersOfN(l[i].N) {
				if c.mode != nil && l[i].N > 4 && (j > 2*l[i].N || j > 26) {
					break
				}
				dev[i] = p
				rec(i+1, left-1)
			}
			delete(dev, i)
		}
	}
	rec(0, pairs)
	sites := map[string]bool{"": true}
	for _, l := range log {
		sites[l.Site] = true
	}
	for s := range sites {
		for kind := 0; kind < 3; kind++ {
			uniform = func(site string, n int) []int {
				if s != "" && s != site {
					return nil
				}
				p := make([]int, n)
				for i := range p {
					p[i] = []int{n - 1 - i, (i + 1) % n, (i + n - 1) % n}[kind]
				}
				return p
			}
			got, _ := run()
			check(got, fmt.Sprintf("every range at %q %s", s, []string{"reversed", "rotated left", "rotated right"}[kind]))
		}
	}
	uniform = nil
}

func isID(p []int) bool {
	for i, x := range p {
		if i != x {
			return false
		}
	}
	return true
}

type built struct {
	p   *models.PMML
	res []Res
	err string
}

// orderOf decides C12 for one document.
func (c *Ctx) orderOf(x string, rows []Row, limit, pairs int) {
	c.curDetail = x
	fail := func(what string) func(got, want interface{}, how string) {
		return func(got, want interface{}, how string) {
			c.Fail(x, "%s, %s: %v; otherwise %v", what, how, got, want)
		}
	}
	n := vrt.Points()
	c.orders(func() interface{} {
		p, err := decode(x)
		if err != nil {
			return built{err: "decode"}
		}
		m, err := modelOf(p)
		if err != nil {
			return built{p, nil, "build"}
		}
		b := built{p: p}
		saved := vrt.Chooser
		vrt.Chooser = func(int, string, int) []int { return nil }
		l := vrt.Log
		for _, r := range rows[:min(len(rows), 3)] {
			b.res = append(b.res, score(m, r))
		}
		vrt.Log, vrt.Chooser = l, saved
		return b
	}, func(a, b interface{}) bool {
		p, q := a.(built), b.(built)
		if p.err != q.err || len(p.res) != len(q.res) {
			return false
		}
		for i := range p.res {
			if !identical(p.res[i], q.res[i]) {
				return false
			}
		}
		return len(rows) > 12 || reflect.DeepEqual(p.p, q.p) || fmt.Sprint(p.p) != fmt.Sprint(p.p)
	}, limit, pairs, fail("decoding and building"))
	if vrt.Points() == n {
		panic("the library is not instrumented")
	}
	m, err := build(x)
	if err != nil {
		c.Outcome("refused")
		return
	}
	seen := map[vrt.Sites]int{}
	for _, r := range rows {
		c.curDetail = x + "\n" + r.String()
		vrt.Passed()
		score(m, r)
		if s := vrt.Passed(); c.mode != nil { // of a family's rows, those that do something else
			if seen[s]++; seen[s] > 2 || len(seen) > 8 {
				c.r.Unspec["rows that execute the same statements as two earlier ones of their document, or after its 8th kind of row"]++
				continue
			}
		}
		c.orders(func() interface{} { return score(m, r) }, func(a, b interface{}) bool { return identical(a.(Res), b.(Res)) },
			limit, pairs, fail(fmt.Sprintf("row %v", r)))
	}
	c.orders(func() interface{} {
		if err := m.Verify(); err != nil {
			return "error"
		}
		return ""
	}, func(a, b interface{}) bool { return a == b }, limit, pairs, fail("Verify"))
}

func runC12(c *Ctx) {
	limit, pairs := 150, 1
	if c.Thorough {
		limit, pairs = 6000, 2
	}
	items := zoo()
	for zi := range items {
		it := &items[zi]
		d := it.verification()
		wide := it.rows[0].clone()
		for i := 0; i < 4; i++ {
			wide[fmt.Sprint("unrelated", i)] = float64(i)
		}
		for ri, r := range append(append([]Row{}, it.rows...), wide) {
			c.Case(fmt.Sprintf("%s row %d", it.name, ri), func() { c.orderOf(d.XML(), []Row{r}, limit, pairs) })
		}
	}
	c.ties(limit, pairs)
	fams := []string{"C01", "C05", "C06", "C07", "C08", "C13", "C04"}
	if c.Thorough {
		fams = append(fams, "C02", "C03", "C09", "C14", "C20", "C21")
	}
	c.Families(func(x string, d *Doc, rows []Row) { c.orderOf(x, rows, limit, 1) }, false, fams...)
}

// ties are documents whose answers hang on the order of equals: classes of one probability, children
// without ids, sums that round, rows of many fields.
func (c *Ctx) ties(limit, pairs int) {
	run := func(name string, d *Doc, rows ...Row) {
		c.Case(name, func() { c.orderOf(d.XML(), rows, limit, pairs) })
	}
	// classes that tie once the children of a node are combined
	dists := [][]SD{
		{{"a", 1, nil}, {"b", 1, nil}, {"c", 1, nil}}, {{"a", 3, nil}, {"b", 1, nil}, {"c", 2, nil}},
		{{"c", 3, nil}, {"a", 1, nil}, {"b", 2, nil}}, {{"b", 10, fp(0.1)}, {"c", 20, fp(0.2)}, {"a", 30, fp(0.7)}}, {{"b", 2, nil}, {"a", 2, nil}},
	}
	for _, mvs := range mvsAll {
		for _, ntc := range []string{"", "returnNullPrediction"} {
			for _, ids := range []bool{false, true} {
				vectors(3, len(dists), func(v []int) {
					root := &Node{Score: "a", RC: 30, Pred: pTrue(), Dist: dists[0]}
					for i, k := range v {
						kid := &Node{Score: "b", RC: []float64{3, 10, 7}[i], Pred: pS(fmt.Sprint("x", i), "greaterThan", "1"), Dist: dists[k]}
						if ids {
							kid.ID = fmt.Sprint(i)
							root.DefaultChild = "1"
						}
						root.Kids = append(root.Kids, kid)
					}
					m := &Mdl{Kind: "tree", Func: "classification", MVS: mvs, NTC: ntc, Penalty: fp(0.9), Root: root, MFs: append(active("x0", "x1", "x2"), MF{Name: "y", Usage: "target"})}
					run(fmt.Sprintf("tie %s %s ids=%v %v", mvs, ntc, ids, v), &Doc{Fields: append(dbl("x0", "x1", "x2"), Field{Name: "y", Type: "string", OpType: "categorical", Values: []string{"a", "b", "c"}}), Model: m},
						Row{}, Row{"x0": 0.0}, Row{"x0": 0.0, "x1": 0.0}, Row{"x0": 0.0, "x2": 2.0}, Row{"x0": 2.0}, Row{"x1": 2.0})
				})
			}
		}
	}
	// classes whose probabilities are neighbours
	near := []*float64{fp(0.3), fp(math.Nextafter(0.3, 1)), fp(math.Nextafter(0.3, 0)), fp(0.3 + 1e-12)}
	for n := 2; n <= 3; n++ {
		vectors(n, len(near), func(v []int) {
			root := &Node{Score: "a", RC: 30, Pred: pTrue()}
			for i, k := range v {
				root.Dist = append(root.Dist, SD{[]string{"c", "a", "b"}[i], 5, near[k]})
			}
			m := &Mdl{Kind: "tree", Func: "classification", Root: root, MFs: append(active("x0"), MF{Name: "y", Usage: "target"})}
			run(fmt.Sprintf("neighbours %v", v), &Doc{Fields: append(dbl("x0"), Field{Name: "y", Type: "string", OpType: "categorical"}), Model: m}, Row{})
		})
	}
	// sums whose value depends on the order of the terms
	nums := []float64{1e16, 1, -1e16, 0.1, 0.3, 700, -700}
	for _, norm := range []string{"softmax", "simplemax"} {
		for n := 3; n <= 4; n++ {
			vectors(n, len(nums), func(v []int) {
				m := &Mdl{Kind: "reg", Func: "classification", Norm: norm, MFs: active("x")}
				for i, k := range v {
					m.Tables = append(m.Tables, Table{Category: fmt.Sprint("k", i), Intercept: nums[k], Nums: []NumPred{{"x", float64(i), 0}}})
					m.Out = append(m.Out, OutF{fmt.Sprint("p", n-i), "probability", fmt.Sprint("k", i)})
				}
				run(fmt.Sprintf("sum %s %v", norm, v), &Doc{Fields: dbl("x"), Model: m}, Row{"x": 0.0}, Row{"x": 0.1})
			})
		}
	}
	for _, method := range []string{"sum", "average"} {
		for _, fn := range []string{"regression", "classification"} {
			vectors(3, 5, func(v []int) {
				m := &Mdl{Kind: "mining", Func: fn, Method: method, MFs: []MF{{Name: "x", Repl: sp("0.1")}, {Name: "x1", Repl: sp("0.2")}, {Name: "x2", Repl: sp("0.3")}}, Tgts: []Tgt{{Field: "b", Factor: fp(3)}, {Field: "a", Offset: fp(0.1)}}}
				if fn == "classification" {
					m.Out = []OutF{{"a", "probability", "k"}, {"b", "probability", "l"}, {"probability(m)", "probability", "m"}}
				} else {
					m.Out = []OutF{{Name: "b"}, {Name: "a"}, {Name: "c"}}
				}
				for i, k := range v {
					s := &Mdl{Kind: "reg", Func: fn, Tables: []Table{{Category: "k", Intercept: nums[k], Nums: []NumPred{{"x", 1, 0}, {"x1", 0.3, 0}, {"x2", 0.7, 0}}}}, Out: []OutF{{Name: fmt.Sprint("o", i)}}}
					if fn == "classification" {
						s.Norm = "softmax"
						s.Tables = append(s.Tables, Table{Category: "l", Intercept: 0.2}, Table{Category: "m", Intercept: nums[(k+1)%5]})
						s.Out = []OutF{{"probability(k)", "probability", "k"}, {"probability(l)", "probability", "l"}, {"probability(m)", "probability", "m"}}
					}
					m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: pTrue(), Model: s})
				}
				run(fmt.Sprintf("ensemble %s %s %v", method, fn, v), &Doc{Fields: dbl("x", "x1", "x2", "x3"), Model: m}, Row{}, Row{"x": 1.0}, Row{"x": 1.0, "x1": 1e16, "x2": -1e16})
			})
		}
	}
	// several targets, also of one field, whose effects do not commute
	vectors(3, 4, func(v []int) {
		for _, method := range []string{"sum", "average"} {
			m := &Mdl{Kind: "mining", Func: "regression", Method: method, MFs: active("x"), Out: []OutF{{Name: "a"}, {Name: "o"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: constTree("2.75")}, {ID: "2", Pred: pS("x", "greaterThan", "0"), Model: constTree("0.75")}}}
			for i, k := range v {
				t := Tgt{Field: []string{"a", "b"}[i*k%2]}
				switch k {
				case 0:
					t.Factor = fp(3)
				case 1:
					t.Offset = fp(0.3)
				case 2:
					t.Factor, t.Offset = fp(-0.5), fp(1)
				case 3:
					t.Cast = "floor"
				}
				m.Tgts = append(m.Tgts, t)
			}
			run(fmt.Sprintf("targets %s %v", method, v), &Doc{Fields: dbl("x", "a", "b"), Model: m}, Row{"x": 0.0}, Row{"x": 1.0})
		}
	})
	// combined segments with several outputs, which one stands for the segment is not for the maps to say
	for _, method := range []string{"sum", "average"} {
		vectors(2, 6, func(v []int) {
			for k := 0; k < 4; k++ {
				var segs []*Seg
				for i, w := range v {
					names := [][]string{{"p", "q"}, {"q", "p"}, {"p", "q", "r"}, {"score", "p"}, {"p", "Score"}, {"probability(1)", "p"}}[w]
					in := &Mdl{Kind: "mining", Func: "regression", Method: []string{"sum", "average"}[i%2], MFs: active("x"), Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: constTree([]string{"0.5", "1", "0", "-2.5"}[k])}}}
					for j, n := range names {
						in.Out = append(in.Out, OutF{Name: n})
						if j > 0 {
							in.Tgts = append(in.Tgts, Tgt{Field: n, Factor: fp([]float64{0.5, 2, -1, 0.25}[(k+j)%4]), Offset: fp(float64(k))})
						}
					}
					segs = append(segs, &Seg{ID: fmt.Sprint(i), Pred: []*Pred{pTrue(), pS("x", "greaterThan", "0")}[i], Model: in})
				}
				m := &Mdl{Kind: "mining", Func: "regression", Method: method, MFs: active("x"), Out: []OutF{{Name: "total"}}, Segs: segs}
				run(fmt.Sprintf("segments with several outputs %s %v %d", method, v, k), &Doc{Fields: dbl("x", "p", "q", "r"), Model: m}, Row{"x": 0.0}, Row{"x": 1.0}, Row{})
			}
		})
	}
	// chains whose segments give several outputs, some of one name or nearly so
	for _, names := range [][]string{{"x1", "x2"}, {"x2", "x1"}, {"x", "x3"}, {"x1", "X1"}, {"X1", "x1"}, {"x", "X"}, {"x ", "x"}, {"x01", "x1"}, {"é", "É"}, {"e", "é"}, {"x-1", "x_1"}, {"score", "Score"}} {
		d := chainDoc(names, 3)
		run(fmt.Sprintf("chain %q", names), d, Row{"x": 1.0, "x1": 2.0, "x2": 3.0}, Row{"x": 0.0, "x1": 0.5, "x2": 0.25, "x3": 9.0}, Row{"x": 1.0, names[0]: 2.0, names[1]: 4.0})
	}
	// rows whose field names are alike, in many fields
	alike := []string{"x", "X", " x", "x ", "x:x", "data:x", "x1", "x01"}
	for n := 2; n <= len(alike); n++ {
		r := Row{}
		for i, a := range alike[:n] {
			r[a] = float64(i) + 0.5
		}
		for mask := 0; mask < 4; mask++ {
			q := r.clone()
			if mask&1 != 0 {
				delete(q, "x")
			}
			if mask&2 != 0 {
				q["X"] = nil
			}
			m := &Mdl{Kind: "reg", Func: "regression", MFs: []MF{{Name: "x", Repl: sp("77")}}, Tables: []Table{{Intercept: 0, Nums: []NumPred{{"x", 1, 0}}}}, Out: []OutF{{Name: "o"}}}
			run(fmt.Sprintf("alike %d %d", n, mask), &Doc{Fields: dbl("x"), Model: m}, q)
		}
	}
	// many replaced fields
	for n := 2; n <= 6; n++ {
		names := leafNames(n)
		m := &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "o"}}}
		inner := &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Intercept: 0.1}}, Out: []OutF{{Name: "o"}}, LT: []DF{dfC("d", eA("+", eF(names[0]), eF(names[1])))}}
		for i, f := range names {
			m.MFs = append(m.MFs, MF{Name: f, Repl: sp(num(float64(i) / 10))})
			inner.Tables[0].Nums = append(inner.Tables[0].Nums, NumPred{f, 0.1, 0})
		}
		m.Segs = []*Seg{{ID: "1", Pred: pTrue(), Model: inner}}
		rows := []Row{{}}
		for _, f := range names {
			rows = append(rows, Row{f: 3.0})
		}
		run(fmt.Sprint("replaced ", n), &Doc{Fields: dbl(names...), Model: m}, rows...)
	}
	// verification tables: what is wrong with them is noticed in every order; two columns of one field
	for bad := -1; bad < 3; bad++ {
		for _, twice := range []string{"", "in", "out", "both"} {
			m := &Mdl{Kind: "reg", Func: "classification", Norm: "softmax", MFs: active("x", "x1"), Tables: []Table{{Category: "k", Intercept: 1, Nums: []NumPred{{"x", 1, 0}, {"x1", 0.25, 0}}}, {Category: "l"}, {Category: "m", Intercept: 0.5}},
				Out: []OutF{{"pk", "probability", "k"}, {"pl", "probability", "l"}, {"pm", "probability", "m"}}}
			d := &Doc{Fields: dbl("x", "x1"), Model: m}
			r := Row{"x": 1.0, "x1": 2.0}
			want := d.Ref(r)
			v := &Verification{Fields: []VField{{Field: "x", Column: "x"}, {Field: "x1", Column: "x1"}, {Field: "pk", Column: "pk", Precision: "1e-6"}, {Field: "pl", Column: "pl", Precision: "1e-6"}, {Field: "pm", Column: "pm", Precision: "1e-6"}}}
			row := [][2]string{{"x", "1"}, {"x1", "2"}}
			for i, o := range []string{"pk", "pl", "pm"} {
				w := want.Out[o].(float64)
				if i == bad {
					w += 0.01
				}
				row = append(row, [2]string{o, num(w)})
			}
			if twice == "in" || twice == "both" {
				v.Fields = append(v.Fields, VField{Field: "x", Column: "z"}, VField{Field: "x", Column: "a"})
				row = append(row, [2]string{"z", "4"}, [2]string{"a", "5"})
			}
			if twice == "out" || twice == "both" {
				v.Fields = append(v.Fields, VField{Field: "pk", Column: "qk", Precision: "1e-6"}, VField{Field: "x1", Column: "pl"})
				row = append(row, [2]string{"qk", num(want.Out["pk"].(float64))})
			}
			m.Verif = v
			v.Rows = [][][2]string{row, row}
			run(fmt.Sprintf("verification wrong %d, twice %q", bad, twice), d, r)
		}
	}
}

// chainDoc is a chain of classifiers that all read x, x1, x2 and the two named fields, which every one
// of them writes.
func chainDoc(names []string, n int) *Doc {
	fields := []string{"x", "x1", "x2", "x3"}
	for _, a := range names {
		known := false
		for _, f := range fields {
			known = known || f == a
		}
		if !known {
			fields = append(fields, a)
		}
	}
	m := &Mdl{Kind: "mining", Func: "classification", Method: "modelChain", MFs: active(fields...)}
	for i := 0; i < n; i++ {
		t := Table{Category: "k", Intercept: float64(i) - 1, Nums: []NumPred{{"x", 1, 0}, {"x1", 0.3, 0}, {"x2", 0.7, 0}, {names[0], -0.9, 0}, {names[1], 1.7, 0}}}
		m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: "classification", Norm: "softmax", Tables: []Table{t, {Category: "l"}}, Out: []OutF{{names[0], "probability", "k"}, {names[1], "probability", "l"}}}})
	}
	return &Doc{Fields: dbl(fields...), Model: m}
}
