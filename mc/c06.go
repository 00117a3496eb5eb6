package main

import (
	"fmt"
	"math"
)

func init() {
	register(&prop{id: "C06", level: "model_checking",
		what:   "one state per RegressionModel document (link x function x tables x predictors x exponents x coefficients x output order); one transition per library call; one validated trace per row of predictor values (including missing), compared with an independent evaluation of the normalised linear form. Complete enumeration of the alphabets up to the predictor/class bound; larger models are swept.",
		assume: []string{"two-class links other than softmax and simplemax expect the predictors in the first table, as the exporters write them; simplemax of a zero total and missing categorical predictors are unspecified", "floating-point results are compared up to rounding (1e-9)"},
		run:    runC06})
}

func regDoc(m *Mdl, fields ...string) *Doc {
	m.Kind = "reg"
	m.MFs = append(active(fields...), MF{Name: "y", Usage: "target"})
	d := &Doc{Fields: append(dbl(fields...), Field{Name: "y", Type: "string", OpType: "categorical"}), Model: m}
	return d
}

func outs(classes ...string) []OutF {
	var r []OutF
	for _, k := range classes {
		r = append(r, OutF{Name: "p_" + k, Feature: "probability", Value: k})
	}
	return r
}

func runC06(c *Ctx) {
	links := []string{"", "none", "softmax", "logit", "exp", "cloglog", "cauchit"}
	vals := []interface{}{0.0, 1.0, -1.0, 0.5, 2.0, -3.25, 10.0, 1e-3, int64(4), "1.5", nil}
	ext := []float64{1e3, -1e3, 1e10, -1e10, 700, -700, 745, 37, -37}
	names := []string{"x0", "x1", "x2"}
	rowsOf := func(n int, al []interface{}) []Row {
		var rows []Row
		vectors(n, len(al), func(v []int) {
			r := Row{}
			for i, k := range v {
				r[names[i]] = al[k]
			}
			rows = append(rows, r)
		})
		if n > 0 {
			rows = append(rows, Row{})
			for i := 0; i < n; i++ {
				r := Row{}
				for j := 0; j < n; j++ {
					if j != i {
						r[names[j]] = 1.0
					}
				}
				rows = append(rows, r)
			}
		}
		return rows
	}
	one := []OutF{{Name: "out", Feature: "predictedValue"}}
	// A predictor named again in its table, alike or not: every term counts.
	again := []NumPred{{"x0", 1.5, exp0}, {"x0", 1.5, 1}, {"x0", -2, 1}, {"x0", 1.5, 2}, {"x1", 1.5, 1}}
	for _, link := range links {
		for np := 2; np <= 3; np++ {
			vectors(np, len(again), func(v []int) {
				c.Case(fmt.Sprintf("predictors again %s %v", link, v), func() {
					t := Table{Intercept: 0.5}
					for _, k := range v {
						t.Nums = append(t.Nums, again[k])
					}
					rows := rowsOf(2, []interface{}{0.0, 2.0, -0.5, nil})
					c.Check(regDoc(&Mdl{Func: "regression", Norm: link, Tables: []Table{t}, Out: one}, names[:2]...), rows...)
					if link == "softmax" || link == "logit" {
						c.Check(regDoc(&Mdl{Func: "classification", Norm: link, Tables: []Table{t, {Category: "b"}}, Out: outs("a", "b")}, names[:2]...), rows...)
					}
				})
			})
		}
	}
	// Regression: one table.
	coefs := []float64{0, 1, -2, 0.25, 3.5}
	exps := []int{0, 1, 2, 3, -1, exp0}
	for _, link := range links {
		for _, b := range []float64{0, 1.5, -2} {
			for np := 0; np <= 2; np++ {
				vectors(np, len(coefs)*len(exps), func(v []int) {
					c.Case(fmt.Sprintf("regression %s %v %v", link, b, v), func() {
						t := Table{Intercept: b}
						for i, k := range v {
							t.Nums = append(t.Nums, NumPred{names[i], coefs[k/len(exps)], exps[k%len(exps)]})
						}
						al := vals
						if np == 2 && !c.Thorough {
							al = []interface{}{0.0, 2.0, -3.25, nil}
						}
						m := &Mdl{Func: "regression", Norm: link, Tables: []Table{t}, Out: one}
						c.Check(regDoc(m, names[:np]...), rowsOf(np, al)...)
						if np == 1 {
							for _, wrap := range []string{"selectFirst", "modelChain", "sum"} {
								w := &Mdl{Kind: "mining", Func: "regression", Method: wrap, MFs: active(names[:np]...), Out: []OutF{{Name: "out"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: m}}}
								c.Check(&Doc{Fields: dbl(names[:np]...), Model: w}, rowsOf(np, al)...)
							}
						}
					})
				})
			}
		}
		// Extremes and many exponents.
		for _, x := range ext {
			c.Case(fmt.Sprintf("extreme %s %v", link, x), func() {
				m := &Mdl{Func: "regression", Norm: link, Tables: []Table{{Intercept: 0, Nums: []NumPred{{"x0", 1, 0}}}}, Out: one}
				c.Check(regDoc(m, "x0"), Row{"x0": x}, Row{"x0": x / 2}, Row{"x0": -x})
				m = &Mdl{Func: "regression", Norm: link, Tables: []Table{{Intercept: x}}, Out: one}
				c.Check(regDoc(m), Row{})
			})
		}
		for e := -8; e <= 12; e++ {
			c.Case(fmt.Sprintf("exponent %s %d", link, e), func() {
				ee := e
				if e == 0 {
					ee = exp0
				}
				m := &Mdl{Func: "regression", Norm: link, Tables: []Table{{Intercept: 0.1, Nums: []NumPred{{"x0", 0.75, ee}, {"x1", -0.5, 0}}}}, Out: one}
				c.Check(regDoc(m, "x0", "x1"), rowsOf(2, []interface{}{1.0, -1.0, 1.1, 0.9, -0.7, 2.0})...)
			})
		}
	}
	// The same predictor several times; categorical predictors, several categories of one field.
	for _, link := range links {
		for nc := 0; nc <= 3; nc++ {
			vectors(nc, 6, func(v []int) {
				c.Case(fmt.Sprintf("categorical %s %v", link, v), func() {
					t := Table{Intercept: 0.5, Nums: []NumPred{{"x0", 2, 0}, {"x0", 0.5, 2}}}
					for i, k := range v {
						t.Cats = append(t.Cats, CatPred{[]string{"k", "l"}[k%2], []string{"a", "b", "1"}[k/2], float64(i+1) * 0.75})
					}
					m := &Mdl{Func: "regression", Norm: link, Tables: []Table{t}, Out: one}
					d := regDoc(m, "x0")
					d.Fields = append(d.Fields, Field{Name: "k", Type: "string"}, Field{Name: "l", Type: "string"})
					var rows []Row
					for _, a := range []interface{}{"a", "b", "1", "A", "", int64(1), nil} {
						for _, b := range []interface{}{"a", "b", "1", "z"} {
							rows = append(rows, Row{"x0": 1.5, "k": a, "l": b}, Row{"k": a, "l": b})
						}
					}
					c.Check(d, rows...)
					if len(v) == 1 { // categorical only
						t.Nums = nil
						m.Tables = []Table{t}
						c.Check(d, rows...)
					}
				})
			})
		}
	}
	// Two classes.
	for _, link := range []string{"", "none", "softmax", "logit", "cloglog", "cauchit", "simplemax"} {
		for _, b := range []float64{0, 1.5, -2} {
			for _, co := range coefs {
				for _, e := range exps {
					for _, order := range []int{0, 1} {
						for _, b2 := range []float64{0, 0.75} {
							c.Case(fmt.Sprintf("binary %s %v %v %d %d %v", link, b, co, e, order, b2), func() {
								t := []Table{{Category: "1", Intercept: b, Nums: []NumPred{{"x0", co, e}, {"x1", 0.5, 0}}}, {Category: "0", Intercept: b2}}
								m := &Mdl{Func: "classification", Norm: link, Tables: t, Out: outs("1", "0")}
								if order == 1 {
									m.Out = outs("0", "1")
								}
								al := append([]interface{}{}, vals...)
								if c.Thorough {
									for _, x := range ext {
										al = append(al, x)
									}
								}
								c.Check(regDoc(m, "x0", "x1"), rowsOf(2, al)...)
								if co == 1 && e == 0 {
									for _, wrap := range []string{"selectFirst", "modelChain", "sum", "average"} {
										w := &Mdl{Kind: "mining", Func: "classification", Method: wrap, MFs: active("x0", "x1"), Out: m.Out, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: m}}}
										c.Check(&Doc{Fields: dbl("x0", "x1"), Model: w}, rowsOf(2, vals)...)
									}
								}
							})
						}
					}
				}
			}
		}
		// categorical predictors in the first table
		c.Case("binary categorical "+link, func() {
			t := []Table{{Category: "yes", Intercept: 0.25, Cats: []CatPred{{"k", "a", 1.5}, {"k", "b", -0.5}}}, {Category: "no"}}
			m := &Mdl{Func: "classification", Norm: link, Tables: t, Out: outs("no", "yes")}
			d := regDoc(m, "x0")
			d.Fields = append(d.Fields, Field{Name: "k", Type: "string"})
			c.Check(d, Row{"k": "a"}, Row{"k": "b"}, Row{"k": "z"})
			t[0].Nums = []NumPred{{"x0", 2, 2}}
			c.Check(d, Row{"k": "a", "x0": 0.5}, Row{"k": "b", "x0": 0.5}, Row{"k": "z", "x0": -1.0}, Row{"k": "a"})
		})
	}
	// Two classes with predictors in either table, both or none, in both table and output orders.
	for _, link := range []string{"", "none", "softmax", "logit", "cloglog", "cauchit"} {
		kinds := []Table{{}, {Nums: []NumPred{{"x0", 0.5, 0}}}, {Nums: []NumPred{{"x1", -1.25, 2}, {"x0", 0.25, 0}}}, {Cats: []CatPred{{"k", "a", 1.5}}}}
		for i := range kinds {
			for j := range kinds {
				c.Case(fmt.Sprintf("binary layout %s %d %d", link, i, j), func() {
					for _, b := range []float64{0, 0.75, -2} {
						for _, o := range [][]string{{"p", "q"}, {"q", "p"}} {
							t := []Table{kinds[i], kinds[j]}
							t[0].Category, t[1].Category, t[0].Intercept, t[1].Intercept = "p", "q", b, 0.5-b
							d := regDoc(&Mdl{Func: "classification", Norm: link, Tables: t, Out: outs(o...)}, "x0", "x1")
							d.Fields = append(d.Fields, Field{Name: "k", Type: "string"})
							rows := []Row{{"k": "a"}, {"k": "b", "x0": 1.0}, {"k": "a", "x1": -1.0}, {"k": "z"}}
							for _, x := range []float64{0, 1, -2.5} {
								rows = append(rows, Row{"k": "a", "x0": x, "x1": 1 - x}, Row{"k": "b", "x0": x, "x1": x * 2})
							}
							c.Check(d, rows...)
						}
					}
				})
			}
		}
	}
	// Several classes: softmax and simplemax.
	for _, link := range []string{"softmax", "simplemax"} {
		for k := 2; k <= 4; k++ {
			perms(k, func(p []int) {
				vectors(k, 4, func(v []int) {
					c.Case(fmt.Sprintf("%s %v %v", link, p, v), func() {
						m := &Mdl{Func: "classification", Norm: link}
						cl := []string{"a", "b", "c", "d"}
						for i, t := range v {
							tb := Table{Category: cl[i], Intercept: []float64{0, 0.5, -1, 2}[t]}
							if t > 0 {
								tb.Nums = append(tb.Nums, NumPred{"x0", float64(i) - 0.5, 0})
							}
							if t > 1 {
								tb.Nums = append(tb.Nums, NumPred{"x1", 1.25 - float64(i), t})
							}
							m.Tables = append(m.Tables, tb)
						}
						for _, i := range p {
							m.Out = append(m.Out, outs(cl[i])...)
						}
						al := []interface{}{0.0, 1.0, -1.0, 3.0, nil}
						c.Check(regDoc(m, "x0", "x1"), rowsOf(2, al)...)
					})
				})
			})
		}
		// Every pair of terms, with odd powers of odd values among them.
		vectors(2, 3*6, func(v []int) {
			c.Case(fmt.Sprintf("%s terms %v", link, v), func() {
				m := &Mdl{Func: "classification", Norm: link}
				for i, k := range v {
					cl := string(rune('a' + i))
					m.Tables = append(m.Tables, Table{Category: cl, Intercept: float64(i) + 0.5, Nums: []NumPred{{names[i], []float64{1, -2, 0.25}[k/6], []int{exp0, 1, 2, 3, -1, -2}[k%6]}}})
					m.Out = append(m.Out, outs(cl)...)
				}
				m.Tables = append(m.Tables, Table{Category: "c", Intercept: -0.5})
				m.Out = append(m.Out, outs("c")...)
				c.Check(regDoc(m, "x0", "x1"), rowsOf(2, []interface{}{0.0, 1.0, -1.0, 2.0, -0.25, 1e-3, math.Copysign(0, -1), 1e200})...)
			})
		})
		sizes := []int{8, 33, 70, 130, 300}
		if c.mode == nil {
			sizes = append(sizes, 1100)
		}
		if c.Thorough {
			sizes = append(sizes, 5, 6, 7, 16, 64, 65, 128, 257)
		}
		for _, n := range sizes {
			c.Case(fmt.Sprintf("%s %d classes", link, n), func() {
				m := &Mdl{Func: "classification", Norm: link}
				for i := 0; i < n; i++ {
					k := fmt.Sprint("c", i)
					m.Tables = append(m.Tables, Table{Category: k, Intercept: 1 + float64(i%5)/4, Nums: []NumPred{{"x0", float64(i%7) / 8, 0}}})
					m.Out = append(outs(k), m.Out...)
				}
				c.Bound("classes, swept", n)
				c.Check(regDoc(m, "x0"), rowsOf(1, vals)...)
			})
		}
	}
	// Every way to declare up to four outputs for up to four classes: several for one class, none for another.
	for _, link := range []string{"softmax", "simplemax"} {
		for nt := 1; nt <= 4; nt++ {
			for no := 0; no <= 4; no++ {
				vectors(no, nt, func(v []int) {
					c.Case(fmt.Sprintf("%s %d classes outputs %v", link, nt, v), func() {
						m := &Mdl{Func: "classification", Norm: link}
						for i := 0; i < nt; i++ {
							m.Tables = append(m.Tables, Table{Category: fmt.Sprint("c", i), Intercept: 1 + float64(i), Nums: []NumPred{{"x0", float64(i) / 4, 0}}})
						}
						for i, t := range v {
							m.Out = append(m.Out, OutF{Name: fmt.Sprint("out", i), Feature: "probability", Value: fmt.Sprint("c", t)})
						}
						c.Check(regDoc(m, "x0"), Row{"x0": 0.0}, Row{"x0": 2.5}, Row{})
					})
				})
			}
		}
	}
	// Softmax at the extremes: never NaN.
	big := []float64{0, 1, -1, 709, 710, -745, 1000, -1000, 1e6, -1e6, 1e300, -1e300}
	for k := 2; k <= 3; k++ {
		vectors(k, len(big), func(v []int) {
			c.Case(fmt.Sprintf("softmax extremes %v", v), func() {
				m := &Mdl{Func: "classification", Norm: "softmax"}
				for i, t := range v {
					cl := string(rune('a' + i))
					m.Tables = append(m.Tables, Table{Category: cl, Intercept: big[t]})
					m.Out = append(m.Out, outs(cl)...)
				}
				c.Check(regDoc(m), Row{})
				d := regDoc(m)
				d.Fields = append(d.Fields, dbl("x0")...)
				for i := range m.Tables {
					m.Tables[i].Nums = []NumPred{{"x0", big[v[i]], 0}}
					m.Tables[i].Intercept = 0
				}
				m.MFs = append(active("x0"), MF{Name: "y", Usage: "target"})
				c.Check(d, Row{"x0": 1.0})
			})
		})
	}
	// Many predictors: each counts, each missing one is an error.
	sizes := []int{5, 20, 33, 70, 130, 300}
	if c.mode == nil {
		sizes = append(sizes, 1100)
	}
	if c.Thorough {
		sizes = append(sizes, 16, 64, 65, 128, 256, 500)
	}
	for _, n := range sizes {
		for _, fn := range []string{"regression", "binary", "multi"} {
			c.Case(fmt.Sprintf("%s with %d predictors", fn, n), func() {
				t := Table{Category: "a", Intercept: 0.5}
				full := Row{}
				for i := 0; i < n; i++ {
					t.Nums = append(t.Nums, NumPred{leafName(i), 1 / float64(i+2), i % 3})
					full[leafName(i)] = 0.25 + float64(i%4)/8
				}
				m := &Mdl{Func: "classification", Tables: []Table{t, {Category: "b"}}, Out: outs("a", "b")}
				switch fn {
				case "regression":
					m = &Mdl{Func: "regression", Tables: []Table{t}, Out: one}
				case "binary":
					m.Norm = "cauchit"
				case "multi":
					m.Norm = "simplemax"
					m.Tables = []Table{t, {Category: "b", Intercept: 1}, {Category: "c", Intercept: 2, Nums: t.Nums[:n/2]}}
					m.Out = outs("a", "c", "b")
				}
				rows := []Row{full}
				for i := 0; i < n; i++ {
					r := full.clone()
					delete(r, leafName(i))
					s := full.clone()
					s[leafName(i)] = nil
					u := full.clone()
					u[leafName(i)] = 7.0
					rows = append(rows, r, s, u)
				}
				c.Bound("predictors, swept", n)
				c.Check(regDoc(m, leafNames(n)...), rows...)
			})
		}
	}
	// Unusual names.
	for _, nm := range []string{"x y", "é", "<&>", "probability(a)", "score", "", "0"} {
		c.Case(fmt.Sprintf("names %q", nm), func() {
			m := &Mdl{Func: "regression", Tables: []Table{{Nums: []NumPred{{nm, 2, 0}}}}, Out: []OutF{{Name: nm}}}
			c.Check(regDoc(m, nm), Row{nm: 1.5}, Row{})
			m = &Mdl{Func: "classification", Norm: "logit", Tables: []Table{{Category: nm, Nums: []NumPred{{nm, 2, 0}}}, {Category: "rest"}}, Out: append(outs("rest"), outs(nm)...)}
			c.Check(regDoc(m, nm), Row{nm: 1.5}, Row{})
			m = &Mdl{Func: "classification", Norm: "softmax", Tables: []Table{{Category: "rest"}, {Category: nm, Nums: []NumPred{{nm, 2, 0}}}, {Category: "q", Intercept: 1}}, Out: append(append(outs("rest"), outs(nm)...), outs("q")...)}
			c.Check(regDoc(m, nm), Row{nm: 1.5}, Row{})
		})
	}
}
