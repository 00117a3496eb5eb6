package main

import (
	"fmt"
	"math"
	"strings"
)

func init() {
	register(&prop{id: "C21", level: "model_checking",
		what:   "one state per ensemble (a model at a depth under a sequence of methods; a sequence of segments and its grouping; a permutation of segments); transitions are decode, build and score calls; one validated trace per row whose result was compared with that of the model standing alone, with the combination of the segments' own results, or with the unpermuted ensemble.",
		assume: []string{"a segment without prediction in a sum or average is not decided", "permuted sums agree up to rounding"},
		run:    runC21})
}

// wrap puts a model as the only segment of an ensemble.
func wrap(m *Mdl, method string, pred *Pred, out []OutF) *Mdl {
	w := &Mdl{Kind: "mining", Func: m.Func, Method: method, Segs: []*Seg{{ID: "only", Pred: pred, Model: m}}, Out: out}
	return w
}

func runC21(c *Ctx) {
	c21Embedding(c)
	c21Siblings(c)
	c21Permutations(c)
	c21Outputs(c)
	c21Near(c)
}

// c21Near: segments that differ in one place only, under equal names and identifiers.
func c21Near(c *Ctx) {
	near := nearItems()
	for zi := range near {
		it := &near[zi]
		if it.doc.More != nil {
			continue
		}
		nearPairs(it, func(name, what string, a, b *Mdl, rows []Row) {
			c.Case(name, func() {
				c.Outcome("near copy: " + strings.Fields(what)[0])
				out := append([]OutF{}, a.Out...)
				if len(out) == 0 || a.Func == "regression" {
					out = []OutF{{Name: "out"}}
				}
				if a.Func == "classification" && len(a.Out) == 0 {
					out = nil
					for _, k := range []string{"play", "may", "no", "a", "b", "1", "0"} {
						out = append(out, OutF{"p_" + k, "probability", k})
					}
				}
				mfs := append([]MF{}, a.MFs...)
				for i := range mfs {
					mfs[i].Repl = nil
				}
				for k, method := range []string{"sum", "average", "selectFirst", "modelChain"} {
					for order, pair := range [][]*Mdl{{a, b}, {b, a}} {
						m := &Mdl{Kind: "mining", Func: a.Func, Method: method, MFs: mfs, Out: out}
						for i, p := range pair {
							q := deepCopy(p)
							q.Name = []string{"same", ""}[(k+order)%2]
							q.Verif = nil
							s := &Seg{ID: []string{"same", ""}[order], Pred: pTrue(), Model: q}
							if method == "selectFirst" && i == 0 {
								s.Pred = pS("turn", "equal", "1")
							}
							m.Segs = append(m.Segs, s)
						}
						d := it.doc.withModels(m)
						d.Fields = append(append([]Field{}, d.Fields...), Field{Name: "turn", Type: "integer", OpType: "continuous"})
						qs := rows
						if method == "selectFirst" {
							qs = nil
							for i, r := range rows {
								r = r.clone()
								r["turn"] = int64(i % 2)
								if i < 4 {
									q := r.clone()
									q["turn"] = int64(1 - i%2)
									qs = append(qs, q)
								}
								qs = append(qs, r)
							}
						}
						c.Check(d, qs...)
					}
				}
			})
		})
	}
}

// c21Outputs: what one combined segment reports is no input of the segments after it, whatever the names.
func c21Outputs(c *Ctx) {
	for _, fn := range []string{"regression", "classification"} {
		cls := fn == "classification"
		givers := []*Mdl{}
		if cls {
			ta := &Mdl{Kind: "tree", Func: fn, Root: &Node{ID: "r", Pred: pTrue(), Dist: []SD{{"a", 3, nil}, {"b", 1, nil}}}}
			tb := &Mdl{Kind: "tree", Func: fn, Root: &Node{ID: "r", Pred: pTrue(), Kids: []*Node{
				{ID: "k", Score: "b", Pred: pS("x", "greaterThan", "0"), Dist: []SD{{"a", 1, fp(0.25)}, {"b", 3, fp(0.75)}}}, {ID: "l", Pred: pTrue(), Dist: []SD{{"b", 2, nil}, {"a", 2, nil}}}}}}
			lr := &Mdl{Kind: "reg", Func: fn, Norm: "softmax", Tables: []Table{{Category: "a", Intercept: 0.5, Nums: []NumPred{{"x", 1, 0}}}, {Category: "b"}}, Out: []OutF{{"pa", "probability", "a"}, {"pb", "probability", "b"}}}
			givers = append(givers, ta, tb, lr,
				&Mdl{Kind: "mining", Func: fn, Method: "average", Out: []OutF{{"pa", "probability", "a"}, {"pb", "probability", "b"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: ta}, {ID: "2", Pred: pTrue(), Model: tb}}},
				&Mdl{Kind: "mining", Func: fn, Method: "modelChain", Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: lr}, {ID: "2", Pred: pTrue(), Model: tb}}})
		} else {
			givers = append(givers, constTree("3"),
				&Mdl{Kind: "reg", Func: fn, Tables: []Table{{Intercept: 2, Nums: []NumPred{{"x", 1, 0}}}}, Out: []OutF{{Name: "o"}}},
				&Mdl{Kind: "mining", Func: fn, Method: "sum", Out: []OutF{{Name: "o"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: constTree("5")}}},
				&Mdl{Kind: "mining", Func: fn, Method: "average", Out: []OutF{{Name: "o"}}, Tgts: []Tgt{{Field: "score", Offset: fp(1)}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: constTree("7")}}},
				&Mdl{Kind: "mining", Func: fn, Method: "modelChain", Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: constTree("9")}, {ID: "2", Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: fn, Tables: []Table{{Nums: []NumPred{{"x", 2, 0}}}}, Out: []OutF{{Name: "o"}}}}}})
		}
		// Every name under which any of them, or what combines them, may report something.
		names := map[string]bool{"score": true, "total": true, "total2": true, "y": true}
		for _, g := range givers {
			for _, f := range g.Out {
				names[f.Name] = true
			}
			d := &Doc{Fields: append(dbl("x"), Field{Name: "y", Type: "string", OpType: "categorical"}), Model: g}
			if m, err := build(d.XML()); err == nil {
				for _, r := range xRows() {
					if o, err := m.Evaluate(dataRow(r)); err == nil {
						for k := range o {
							names[k] = true
						}
					}
				}
			}
		}
		for _, name := range sortedKeys2(names) {
			readers := func(k int, name string) *Mdl {
				if !cls {
					if k == 0 {
						return &Mdl{Kind: "tree", Func: fn, Root: &Node{ID: "r", Score: "64", Pred: pTrue(), Kids: []*Node{{ID: "1", Score: "128", Pred: pS(name, "isMissing", "")}, {ID: "2", Score: "256", Pred: pS(name, "greaterThan", "2")}}}}
					}
					return &Mdl{Kind: "reg", Func: fn, LT: []DF{dfC("z", eA("if", eA("isMissing", eF(name)), eK("512"), eF(name)))}, Tables: []Table{{Nums: []NumPred{{"z", 1, 0}}}}, Out: []OutF{{Name: "score"}}}
				}
				if k == 0 {
					return &Mdl{Kind: "tree", Func: fn, Root: &Node{ID: "r", Pred: pTrue(), Dist: []SD{{"a", 1, fp(0.5)}, {"b", 1, fp(0.5)}}, Kids: []*Node{
						{ID: "1", Pred: pS(name, "isMissing", ""), Dist: []SD{{"a", 1, fp(0.0625)}, {"b", 1, fp(0.9375)}}}, {ID: "2", Pred: pS(name, "isNotMissing", ""), Dist: []SD{{"a", 1, fp(0.875)}, {"b", 1, fp(0.125)}}}}}}
				}
				return &Mdl{Kind: "reg", Func: fn, Norm: "softmax", LT: []DF{dfC("z", eA("if", eA("isMissing", eF(name)), eK("2"), eK("-1")))}, Tables: []Table{{Category: "a", Nums: []NumPred{{"z", 1, 0}}}, {Category: "b"}}, Out: []OutF{{"pa", "probability", "a"}, {"pb", "probability", "b"}}}
			}
			for gi, g := range givers {
				for rk := 0; rk < 2; rk++ {
					for shape := 0; shape < 6; shape++ {
						for _, method := range []string{"sum", "average"} {
							c.Case(fmt.Sprintf("outputs %s %q %d %d %d %s", fn, name, gi, rk, shape, method), func() {
								out := []OutF{{Name: "total"}, {Name: "total2"}}
								if cls {
									out = []OutF{{"pa", "probability", "a"}, {"pb", "probability", "b"}}
								}
								e := func(segs ...*Seg) *Mdl {
									return &Mdl{Kind: "mining", Func: fn, Method: method, Out: out, Segs: segs}
								}
								s := func(m *Mdl) *Seg { return &Seg{Pred: pTrue(), Model: m} }
								one := func(m *Mdl) *Mdl {
									o := []OutF{{Name: "score"}}
									if cls {
										o = out
									}
									return &Mdl{Kind: "mining", Func: fn, Method: "sum", Out: o, Segs: []*Seg{s(m)}}
								}
								r := readers(rk, name)
								var m *Mdl
								switch shape {
								case 0:
									m = e(s(g), s(r))
								case 1:
									m = e(s(r), s(g), s(r))
								case 2:
									m = e(s(one(g)), s(r))
								case 3:
									m = e(s(g), s(one(r)))
								case 4:
									m = e(s(g), &Seg{Pred: pS(name, "isMissing", ""), Model: r}, s(g))
								case 5:
									m = e(s(g), s(givers[(gi+1)%len(givers)]), s(one(one(r))))
								}
								// A derived field of the ensemble may also be what is read.
								d := &Doc{Fields: dbl("x"), Model: m}
								typ := Field{Name: name, Type: "double", OpType: "continuous"}
								if name == "y" && cls {
									typ = Field{Name: name, Type: "string", OpType: "categorical"}
								}
								d.Fields = append(d.Fields, typ)
								if name != "y" {
									d.Fields = append(d.Fields, Field{Name: "y", Type: map[bool]string{true: "string", false: "double"}[cls], OpType: map[bool]string{true: "categorical", false: "continuous"}[cls]})
								}
								rows := xRows()
								for _, q := range []Row{{"x": 1.0, name: nil}, {"x": 1.0, name: 1.0}, {"x": 0.0, name: 2.5}} {
									if !(cls && (name == "y" || name == "score")) || q[name] == nil {
										rows = append(rows, q)
									}
								}
								c.Check(d, rows...)
							})
						}
					}
				}
			}
		}
	}
}

func c21Embedding(c *Ctx) {
	methods := []string{"sum", "average", "modelChain", "selectFirst"}
	items := append(append(setDocs(), zoo()...), deepDocs()...)
	depth := 3
	if c.Thorough {
		depth = 5
	}
	preds := []*Pred{pTrue(), pS("neverSupplied", "isMissing", ""), pC("or", pFalse(), pTrue())}
	for zi := range items {
		it := &items[zi]
		var alone []Res
		own := func() []Res {
			if alone == nil {
				m, err := build(it.doc.XML())
				if err != nil {
					c.Fail(it.doc.XML(), "the document %s is refused: %v", it.name, err)
				}
				for _, r := range it.rows {
					alone = append(alone, score(m, r))
					c.r.Transitions++
				}
			}
			return alone
		}
		var rec func(d int, seq []string)
		rec = func(d int, seq []string) {
			for _, me := range methods {
				s := append(append([]string{}, seq...), me)
				for pi := range preds {
					if pi > 0 && len(s) > 2 {
						continue
					}
					for mf := 0; mf < 4; mf++ {
						if mf > 1 && len(s) > 1 && !c.Thorough {
							continue
						}
						c.Case(fmt.Sprintf("embed %s %v %d %d", it.name, s, pi, mf), func() {
							c21Embed(c, it, s, preds[pi], mf, own())
						})
					}
				}
				if len(s) < depth {
					rec(d+1, s)
				}
			}
		}
		rec(0, nil)
	}
}

// c21Embed wraps the item's model under the methods (innermost first) and compares with it standing alone.
func c21Embed(c *Ctx, it *zooItem, methods []string, pred *Pred, mf int, alone []Res) {
	d := *it.doc
	d.Fields = append(append([]Field{}, d.Fields...), Field{Name: "neverSupplied", Type: "double", OpType: "continuous"})
	m := d.Model
	// The outputs the ensembles have to declare: every numeric output of the model under its own name.
	var out []OutF
	names := map[string]bool{}
	for _, r := range alone {
		for _, k := range sortedKeys(r.Out) {
			if _, ok := r.Out[k].(float64); ok && !names[k] {
				names[k] = true
				out = append(out, OutF{Name: k})
			}
		}
	}
	single := m.Func == "regression"
	nums := false
	name := ""
	for i, me := range methods {
		o := out
		if me == "sum" || me == "average" {
			nums = true
			if single {
				name = []string{"score", "total"}[i%2]
				o = []OutF{{Name: name}}
			}
		}
		w := wrap(m, me, pred, o)
		switch mf {
		case 1:
			w.MFs = m.MFs
		case 2:
			w.LT = []DF{dfC("unrelated", eK("5"))}
			w.MFs = append(active("unrelated2"), MF{Name: "unrelated3", Repl: sp("4")})
		case 3:
			w.MFs = []MF{{Name: "neverSupplied"}}
			w.MVS = ""
		}
		m = w
	}
	d.Model = m
	x := d.XML()
	c.curDetail = x
	c.r.States++
	c.r.Transitions++
	mdl, err := build(x)
	if err != nil {
		c.Fail(x, "refused: %v", err)
	}
	for i, row := range it.rows {
		want := alone[i]
		got := score(mdl, row)
		c.r.Transitions++
		if nums && want.Kind == resNull {
			c.Unspec("no prediction in a sum or average")
			continue
		}
		if _, ok := want.Out["score"]; nums && single && !ok && len(want.Out) > 1 {
			want = Res{Kind: resErr}
		}
		c.r.Validated++
		w := want
		if nums && want.Kind == resOut {
			w = Res{Kind: resOut, Out: map[string]interface{}{}}
			for k, v := range want.Out {
				if f, ok := v.(float64); ok {
					if single {
						k = name
					}
					w.Out[k] = f
				}
			}
			if !single {
				// classes that only other rows mention
				for k := range names {
					if _, ok := w.Out[k]; !ok {
						w.Out[k] = 0.0
					}
				}
			}
		}
		g := got
		g.Reason, w.Reason = "", ""
		if !identical(g, w) {
			c.Fail(x+"\n"+row.String(), "row %v gives %v, but the model alone %v", row, got, want)
		}
		c.Outcome(outcomeKey(got))
	}
	c.Sample(map[string]interface{}{"case": c.name, "document": x})
}

// c21Kinds are segment models that declare or read the names d, e and x.
func c21Kinds() []func(k float64) *Mdl {
	tree := func(k float64, kids ...*Node) *Mdl {
		return &Mdl{Kind: "tree", Func: "regression", MVS: "lastPrediction", Root: &Node{ID: "r", Score: num(k), Pred: pTrue(), Kids: kids}}
	}
	nd := func(s float64, p *Pred) *Node { return &Node{Score: num(s), Pred: p} }
	reg := func(k float64, names ...string) *Mdl {
		t := Table{Intercept: k}
		for i, n := range names {
			t.Nums = append(t.Nums, NumPred{n, []float64{1, 4}[i], 0})
		}
		return &Mdl{Kind: "reg", Func: "regression", Tables: []Table{t}, Out: []OutF{{Name: "score"}}}
	}
	onD := func(k float64) []*Node {
		return []*Node{nd(k+1, pS("d", "lessThan", "2")), nd(k+2, pS("d", "lessOrEqual", "10")), nd(k+3, pS("d", "greaterThan", "10"))}
	}
	return []func(k float64) *Mdl{
		func(k float64) *Mdl { return tree(k) },
		func(k float64) *Mdl {
			m := tree(k, onD(k)...)
			m.LT = []DF{dfC("d", eA("+", eF("x"), eK("1")))}
			return m
		},
		func(k float64) *Mdl {
			m := tree(k, onD(k)...)
			m.LT = []DF{dfC("d", eA("*", eF("x"), eK("4")))}
			return m
		},
		func(k float64) *Mdl {
			m := reg(k, "e")
			m.LT = []DF{dfC("e", eA("if", eA("isMissing", eF("d")), eK("16"), eA("+", eF("d"), eK("1"))))}
			return m
		},
		func(k float64) *Mdl { return tree(k, onD(k)...) },
		func(k float64) *Mdl { return tree(k, nd(k+1, pS("d", "equal", "1"))) },
		func(k float64) *Mdl { return reg(k, "d") },
		func(k float64) *Mdl { m := reg(k, "x"); m.MFs = []MF{{Name: "x", Repl: sp("5")}}; return m },
		func(k float64) *Mdl { m := reg(k, "x"); m.MFs = []MF{{Name: "x", Repl: sp("7")}}; return m },
		func(k float64) *Mdl { return tree(k, nd(k+1, pS("x", "isMissing", "")), nd(k+2, pTrue())) },
		func(k float64) *Mdl {
			m := tree(k, nd(k+1, pS("d", "equal", "s")), nd(k+2, pS("d", "notEqual", "s")))
			m.LT = []DF{tableOf("d", "c", "x", sp("z"), "1", "s", "5", "t")}
			return m
		},
		func(k float64) *Mdl {
			m := reg(k, "d", "e")
			m.LT = []DF{dfC("e", eA("*", eF("x"), eK("32"))), dfC("d", eA("-", eF("e"), eF("x")))}
			return m
		},
		func(k float64) *Mdl { m := reg(k, "d"); m.MFs = []MF{{Name: "d", Repl: sp("3")}}; return m },
		func(k float64) *Mdl {
			m := &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "score"}}, LT: []DF{dfC("d", eA("+", eF("x"), eK("64")))}}
			m.Segs = []*Seg{{ID: "i", Pred: pS("d", "isNotMissing", ""), Model: reg(k, "d")}, {ID: "j", Pred: pTrue(), Model: tree(k, nd(k+1, pS("d", "greaterThan", "65")))}}
			return m
		},
		func(k float64) *Mdl {
			m := &Mdl{Kind: "mining", Func: "regression", Method: "modelChain", MFs: []MF{{Name: "x", Repl: sp("9")}}}
			m.Segs = []*Seg{{ID: "i", Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Intercept: 1, Nums: []NumPred{{"x", 2, 0}}}}, Out: []OutF{{Name: "e"}}}}, {ID: "j", Pred: pTrue(), Model: reg(k, "e")}}
			return m
		},
		func(k float64) *Mdl { return reg(k, "e") },
		func(k float64) *Mdl {
			m := tree(k, nd(k+1, pS("x", "isMissing", "")), nd(k+2, pS("x", "equal", "6")))
			m.MFs = []MF{{Name: "x", Repl: sp("6")}}
			return m
		},
	}
}

func c21Docs() []*Doc {
	x := Field{Name: "x", Type: "double", OpType: "continuous"}
	return []*Doc{
		{Fields: []Field{x}},
		{Fields: []Field{x, {Name: "d", Type: "double", OpType: "continuous"}, {Name: "e", Type: "double"}}},
		{Fields: []Field{x, {Name: "d", Type: "string", OpType: "categorical"}}},
		{Fields: []Field{x}, TD: []DF{dfC("d", eA("+", eF("x"), eK("0.5")))}},
	}
}

func c21Rows() []Row {
	var r []Row
	for _, x := range []interface{}{nil, 0.0, 1.0, 5.0} {
		for _, d := range []interface{}{nil, 1.0, 12.0} {
			row := Row{}
			if x != nil {
				row["x"] = x
			}
			if d != nil {
				row["d"] = d
			}
			r = append(r, row)
		}
	}
	return append(r, Row{"x": nil, "d": "1"}, Row{"x": 2.0, "e": 8.0})
}

func c21Siblings(c *Ctx) {
	kinds := c21Kinds()
	rows := c21Rows()
	for di, base := range c21Docs() {
		type solo struct {
			ok  bool
			res []Res
		}
		memo := map[[2]int]*solo{}
		alone := func(kind, at int) *solo {
			key := [2]int{kind, at}
			if s := memo[key]; s != nil {
				return s
			}
			d := *base
			d.Model = kinds[kind](float64(at) * 128)
			s := &solo{}
			memo[key] = s
			m, err := build(d.XML())
			c.r.Transitions++
			if err == nil {
				s.ok = true
				for _, r := range rows {
					s.res = append(s.res, score(m, r))
					c.r.Transitions++
				}
			}
			return s
		}
		// check compares an ensemble of the given kinds with the combination of their own results.
		check := func(m *Mdl, ks []int, method string) {
			d := *base
			d.Model = m
			x := d.XML()
			c.curDetail = x
			c.r.States++
			c.r.Transitions++
			mdl, err := build(x)
			refused := false
			for at, k := range ks {
				refused = refused || !alone(k, at).ok
			}
			if refused != (err != nil) {
				c.Fail(x, "refused: %v, but its segments alone: %v", err, refused)
			}
			if refused {
				c.Outcome("refused")
				c.r.Validated++
				return
			}
			for ri, row := range rows {
				got := score(mdl, row)
				c.r.Transitions++
				want := 0.0
				kind := resOut
				for at, k := range ks {
					r := alone(k, at).res[ri]
					if r.Kind == resErr {
						kind = resErr
						break
					}
					if r.Kind == resNull {
						kind = resUnspec
						break
					}
					want += r.Out["score"].(float64)
				}
				if kind == resUnspec {
					c.Unspec("segment without prediction")
					continue
				}
				c.r.Validated++
				c.Outcome(fmt.Sprint("kind ", kind))
				if got.Kind != kind {
					c.Fail(x+"\n"+row.String(), "row %v gives %v, want kind %v", row, got, kind)
				}
				if kind != resOut {
					continue
				}
				if method == "average" {
					want /= float64(len(ks))
				}
				f, ok := got.Out["total"].(float64)
				if !ok || math.Abs(f-want) > 1e-9*math.Max(1, math.Abs(want)) {
					c.Fail(x+"\n"+row.String(), "row %v gives %v, but its segments alone give %v", row, got, want)
				}
			}
			c.Sample(map[string]interface{}{"case": c.name, "document": x})
		}
		ens := func(method string, out string, segs ...*Mdl) *Mdl {
			m := &Mdl{Kind: "mining", Func: "regression", Method: method, Out: []OutF{{Name: out}}}
			for i, s := range segs {
				m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: pTrue(), Model: s})
			}
			return m
		}
		// Every sequence of segments, and every grouping of it.
		n := 3
		if c.Thorough {
			n = 4
		}
		var seqs func(ks []int)
		seqs = func(ks []int) {
			if len(ks) > 0 {
				c.Case(fmt.Sprintf("segments %d %v", di, ks), func() {
					mk := func() []*Mdl {
						var ms []*Mdl
						for at, k := range ks {
							ms = append(ms, kinds[k](float64(at)*128))
						}
						return ms
					}
					for _, me := range []string{"sum", "average"} {
						check(ens(me, "total", mk()...), ks, me)
					}
					for cut := 1; cut < len(ks); cut++ {
						ms := mk()
						check(ens("sum", "total", ens("sum", "score", ms[:cut]...), ens("sum", "score", ms[cut:]...)), ks, "sum")
						ms = mk()
						check(ens("sum", "total", append([]*Mdl{ens("sum", "score", ms[:cut]...)}, ms[cut:]...)...), ks, "sum")
						ms = mk()
						check(ens("sum", "total", append(append([]*Mdl{}, ms[:cut]...), ens("sum", "score", ms[cut:]...))...), ks, "sum")
					}
				})
				// The last one is selected, or reached in a chain behind the others' (other) outputs.
				c.Case(fmt.Sprintf("last %d %v", di, ks), func() {
					for _, me := range []string{"selectFirst", "modelChain"} {
						var segs []*Seg
						for at, k := range ks {
							p := pTrue()
							if at < len(ks)-1 && me == "selectFirst" {
								p = pFalse()
							}
							segs = append(segs, &Seg{ID: fmt.Sprint(at), Pred: p, Model: kinds[k](float64(at) * 128)})
						}
						d := *base
						d.Model = &Mdl{Kind: "mining", Func: "regression", Method: me, Segs: segs}
						x := d.XML()
						c.curDetail = x
						c.r.States++
						c.r.Transitions++
						mdl, err := build(x)
						ok := true
						for at, k := range ks {
							ok = ok && alone(k, at).ok
						}
						if ok != (err == nil) {
							c.Fail(x, "refused: %v, but its segments alone: %v", err, !ok)
						}
						if !ok {
							continue
						}
						last := len(ks) - 1
						for ri, row := range rows {
							got := score(mdl, row)
							c.r.Transitions++
							want := alone(ks[last], last).res[ri]
							if me == "modelChain" {
								for at := range ks[:last] {
									if alone(ks[at], at).res[ri].Kind == resErr {
										want = Res{Kind: resErr}
									}
								}
							}
							c.r.Validated++
							got.Reason, want.Reason = "", ""
							if !identical(got, want) {
								c.Fail(x+"\n"+row.String(), "%s: row %v gives %v, but the last segment alone %v", me, row, got, want)
							}
						}
					}
				})
			}
			if len(ks) < n {
				for k := range kinds {
					if k == 12 && di == 3 {
						continue // a replacement declared for a derived field
					}
					if len(ks) == 3 && (k+ks[0]+ks[1]+ks[2])%5 != 0 {
						continue
					}
					seqs(append(append([]int{}, ks...), k))
				}
			}
		}
		seqs(nil)
		// What a segment declares is invisible to the predicates of its own and of other segments.
		for k := range kinds {
			if k == 12 && di == 3 {
				continue
			}
			for _, p := range []*Pred{pS("x", "isMissing", ""), pS("x", "isNotMissing", ""), pS("x", "equal", "5"), pS("d", "isMissing", ""), pS("d", "equal", "1"), pS("e", "isNotMissing", "")} {
				c.Case(fmt.Sprintf("segment predicate %d %d %s %s", di, k, p.Field, p.Op), func() {
					known := p.Field == "x"
					for _, f := range base.Fields {
						known = known || f.Name == p.Field
					}
					for _, f := range base.TD {
						known = known || f.Name == p.Field
					}
					for shape := 0; shape < 4; shape++ {
						d := *base
						a, b := kinds[k](0), constTree("1024")
						m := &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "total"}}}
						m.Segs = [][]*Seg{{{ID: "1", Pred: p, Model: a}, {ID: "2", Pred: pTrue(), Model: b}}, {{ID: "1", Pred: pTrue(), Model: a}, {ID: "2", Pred: p, Model: b}}, {{ID: "2", Pred: p, Model: b}, {ID: "1", Pred: pTrue(), Model: a}}, {{ID: "0", Pred: pTrue(), Model: ens("sum", "score", a)}, {ID: "2", Pred: p, Model: b}}}[shape]
						d.Model = m
						x := d.XML()
						c.curDetail = x
						c.r.States++
						c.r.Transitions++
						mdl, err := build(x)
						if ok := known && alone(k, 0).ok; ok != (err == nil) {
							c.Fail(x, "refused: %v, want it refused: %v", err, !ok)
						}
						if err != nil {
							c.Outcome("refused")
							continue
						}
						types := map[string]string{}
						for _, f := range d.Fields {
							types[f.Name] = f.Type
						}
						for _, f := range d.TD {
							types[f.Name] = f.DataType
						}
						for ri, row := range rows {
							seen := row.clone()
							for _, df := range d.TD {
								if refVal(seen[df.Name]) == nil { // a supplied value wins
									refDerive([]DF{df}, seen)
								}
							}
							truth := refPred(p, seen, types)
							r := alone(k, 0).res[ri]
							want, isErr := 0.0, false
							aSel := shape != 0 || truth == tT
							if aSel {
								if r.Kind == resErr {
									isErr = true
								} else {
									want += r.Out["score"].(float64)
								}
							}
							if shape == 0 || truth == tT {
								want += 1024
							}
							got := score(mdl, row)
							c.r.Transitions++
							c.r.Validated++
							if isErr != (got.Kind == resErr) {
								c.Fail(x+"\n"+row.String(), "row %v gives %v, want an error: %v", row, got, isErr)
							}
							if f, ok := got.Out["total"].(float64); !isErr && (!ok || f != want) {
								c.Fail(x+"\n"+row.String(), "row %v gives %v, want %v", row, got, want)
							}
						}
					}
				})
			}
		}
	}
}

func c21Permutations(c *Ctx) {
	var ens []zooItem
	for _, it := range append(zoo(), deepDocs()...) {
		if m := it.doc.Model; m.Kind == "mining" && (m.Method == "sum" || m.Method == "average") {
			ens = append(ens, it)
		}
	}
	// Many small segments, each with its own predicate and declarations.
	big := &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "total"}}}
	cls := &Mdl{Kind: "mining", Func: "classification", Method: "average", Out: []OutF{{"a", "probability", "play"}, {"probability(may)", "probability", "may"}, {"probability(no)", "probability", "no"}}, MFs: []MF{{Name: "what", Usage: "target"}}}
	mvs := []string{"lastPrediction", "weightedConfidence", "defaultChild", "aggregateNodes", "none"}
	for i := 0; i < 5; i++ {
		t := zooRegTree(float64(i) + 1.5)
		if i%2 == 0 {
			t.MFs = []MF{{Name: "temp", Repl: sp(num(50 + float64(i)*10))}}
			t.LT = []DF{dfC("d", eA("*", eF("amount"), eK(num(float64(i)))))}
			t.Root.Kids = append(t.Root.Kids, &Node{ID: "z", Score: "50", Pred: pS("d", "greaterThan", "2")})
		}
		big.Segs = append(big.Segs, &Seg{ID: fmt.Sprint(i), Pred: []*Pred{pTrue(), pS("temp", "greaterThan", "60"), pC("or", pS("amount", "lessThan", "2"), pS("temp", "isMissing", "")), pS("count", "notEqual", "3"), pTrue()}[i], Model: t})
		cls.Segs = append(cls.Segs, &Seg{ID: fmt.Sprint(i), Pred: []*Pred{pTrue(), pS("temp", "greaterThan", "60"), pS("outlook", "isNotMissing", ""), pTrue(), pC("or", pS("windy", "equal", "true"), pTrue())}[i], Model: zooTree(mvs[i], "", nil)})
	}
	ens = append(ens, zooItem{"big", &Doc{Fields: zooFields, Model: big}, zooRows()}, zooItem{"classes", &Doc{Fields: zooFields, Model: cls}, zooRows()})
	for ei := range ens {
		it := &ens[ei]
		var base []Res
		perms(len(it.doc.Model.Segs), func(p []int) {
			c.Case(fmt.Sprintf("permuted %s %v", it.name, p), func() {
				if base == nil {
					m, err := build(it.doc.XML())
					if err != nil {
						c.Fail(it.doc.XML(), "refused: %v", err)
					}
					for _, r := range it.rows {
						base = append(base, score(m, r))
						c.r.Transitions++
					}
				}
				d := *it.doc
				m := *d.Model
				m.Segs = nil
				for _, i := range p {
					m.Segs = append(m.Segs, it.doc.Model.Segs[i])
				}
				d.Model = &m
				x := d.XML()
				c.curDetail = x
				c.r.States++
				c.r.Transitions++
				mdl, err := build(x)
				if err != nil {
					c.Fail(x, "refused: %v", err)
				}
				for i, r := range it.rows {
					got := score(mdl, r)
					c.r.Transitions++
					c.r.Validated++
					if s := diff(got, base[i]); s != "" {
						c.Fail(x+"\n"+r.String(), "row %v, segments in order %v: %s", r, p, s)
					}
					c.Outcome(outcomeKey(got))
				}
			})
		})
	}
}
