package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&prop{id: "C13", level: "model_checking",
		what:   "one state per verification table (model class x rows x columns x magnitude); one transition per library call; one validated trace per deviation (position x kind) whose acceptance by Verify was compared with the definition. Every position of one deviation (and of two, in small tables) is visited for every kind; long tables are swept.",
		assume: []string{"expectations that are not numbers, and infinite predictions that are expected, are unspecified"},
		run:    runC13})
}

// Verification models: outputs are known functions of x; each has n outputs named o0.. (or probability(..)).
func verifDoc(kind string, nOut int) (*Doc, []string) {
	var names []string
	switch kind {
	case "ensemble":
		m := &Mdl{Kind: "mining", Func: "regression", Method: "sum", MFs: active("x", "in put"), Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: "regression", MFs: active("x"), Tables: []Table{{Nums: []NumPred{{"x", 1, 0}}}}, Out: []OutF{{Name: "q"}}}}}}
		for i := 0; i < nOut; i++ {
			n := fmt.Sprint("o", i)
			names = append(names, n)
			m.Tgts = append(m.Tgts, Tgt{Field: n, Factor: fp(float64(i + 1))})
		}
		return &Doc{Fields: dbl("x", "in put"), Model: m}, names
	case "reg":
		m := &Mdl{Kind: "reg", Func: "regression", MFs: active("x"), Tables: []Table{{Nums: []NumPred{{"x", 1, 0}}}}, Out: []OutF{{Name: "o0"}}}
		return &Doc{Fields: dbl("x"), Model: m}, []string{"o0"}
	case "tree":
		m := &Mdl{Kind: "tree", Func: "regression", MFs: active("x"), NTC: "returnNullPrediction", Root: &Node{ID: "r", Score: "0", Pred: pTrue(), Kids: nil}}
		for i, v := range verifMags {
			m.Root.Kids = append(m.Root.Kids, &Node{ID: fmt.Sprint(i), Score: num(v), Pred: pS("x", "equal", num(v))})
		}
		return &Doc{Fields: dbl("x"), Model: m}, []string{"score"}
	case "softmax":
		m := &Mdl{Kind: "reg", Func: "classification", Norm: "softmax", MFs: active("x")}
		for i := 0; i < nOut; i++ {
			n := fmt.Sprint("o", i)
			names = append(names, n)
			m.Tables = append(m.Tables, Table{Category: n, Intercept: float64(i) / 2, Nums: []NumPred{{"x", 0.01 * float64(i), 0}}})
			m.Out = append(m.Out, OutF{n, "probability", n})
		}
		return &Doc{Fields: dbl("x"), Model: m}, names
	}
	panic(kind)
}

var verifMags = []float64{1, -1, 0.001, -0.001, 1e-8, -1e-8, 12345.678, -12345.678, 1e12, -1e12, 1e-12, 3, 0}

type devKind struct {
	name string
	f    func(v float64) (string, bool, bool) // text, still acceptable, applicable
}

var devKinds = []devKind{
	{"rel 1e-7", func(v float64) (string, bool, bool) { return num(v * (1 + 1e-7)), true, v != 0 }},
	{"rel 5e-6", func(v float64) (string, bool, bool) { return num(v * (1 + 5e-6)), true, v != 0 }},
	{"rel -5e-6", func(v float64) (string, bool, bool) { return num(v * (1 - 5e-6)), true, v != 0 }},
	{"rel 2e-5", func(v float64) (string, bool, bool) { return num(v * (1 + 2e-5)), false, v != 0 }},
	{"rel -2e-5", func(v float64) (string, bool, bool) { return num(v * (1 - 2e-5)), false, v != 0 }},
	{"rel 1e-3", func(v float64) (string, bool, bool) { return num(v * 1.001), false, v != 0 }},
	{"rel -1e-3", func(v float64) (string, bool, bool) { return num(v * 0.999), false, v != 0 }},
	{"double", func(v float64) (string, bool, bool) { return num(v * 2), false, v != 0 }},
	{"half", func(v float64) (string, bool, bool) { return num(v / 2), false, v != 0 }},
	{"opposite", func(v float64) (string, bool, bool) { return num(-v), false, v != 0 }},
	{"zero", func(v float64) (string, bool, bool) { return "0", false, v != 0 }},
	{"one more", func(v float64) (string, bool, bool) { return num(v + 1), false, v > -1e4 && v < 1e4 }},
	{"one less", func(v float64) (string, bool, bool) { return num(v - 1), false, v > -1e4 && v < 1e4 }},
	{"tiny instead of zero", func(v float64) (string, bool, bool) { return "1e-9", false, v == 0 }},
	{"notation", func(v float64) (string, bool, bool) { return fmt.Sprintf("%.10e", v), true, true }},
}

func runC13(c *Ctx) {
	build13 := func(d *Doc, names []string, xs []float64, dev func(row, col int, v float64) (string, bool), colPrefix string, flip bool) (*Doc, bool) {
		e := *d
		m := *d.Model
		v := &Verification{}
		v.Fields = []VField{{Field: "x", Column: colPrefix + "x"}}
		for _, n := range names {
			v.Fields = append(v.Fields, VField{Field: n, Column: colPrefix + n, Precision: "1e-6"})
		}
		ok := true
		plain, err := build(d.XML())
		if err != nil {
			c.Fail(d.XML(), "refused without verification data: %v", err)
		}
		for i, x := range xs {
			res := score(plain, Row{"x": x})
			row := [][2]string{{colPrefix + "x", num(x)}}
			for j, n := range names {
				val, isNum := res.Out[n].(float64)
				if !isNum { // some other property is broken
					c.r.Unspec["no numeric output to verify"]++
					return nil, false
				}
				txt, good := dev(i, j, val)
				ok = ok && good
				if txt != "-" {
					row = append(row, [2]string{colPrefix + n, txt})
				}
			}
			if flip {
				for a, b := 0, len(row)-1; a < b; a, b = a+1, b-1 {
					row[a], row[b] = row[b], row[a]
				}
			}
			v.Rows = append(v.Rows, row)
		}
		if flip {
			for a, b := 0, len(v.Fields)-1; a < b; a, b = a+1, b-1 {
				v.Fields[a], v.Fields[b] = v.Fields[b], v.Fields[a]
			}
		}
		m.Verif = v
		e.Model = &m
		return &e, ok
	}
	verify := func(d *Doc, want bool, what string) {
		if d == nil {
			return
		}
		x := d.XML()
		c.curDetail = x
		m, err := build(x)
		if err != nil {
			c.Fail(x, "refused: %v", err)
		}
		err = m.Verify()
		c.r.Transitions += 2
		c.r.Validated++
		c.Outcome(fmt.Sprintf("accepted: %v", err == nil))
		if (err == nil) != want {
			c.Fail(x, "Verify gives %v for %s; the document is to be accepted: %v", err, what, want)
		}
		// It says so as often as it is asked, scored in between or not.
		for i := 0; i < 2; i++ {
			again := m.Verify()
			c.r.Transitions++
			if (again == nil) != want {
				c.Fail(x, "Verify gives %v for %s when asked again, but %v at first", again, what, err)
			}
			if i == 0 {
				score(m, Row{"x": 1.0})
				c.r.Transitions++
			}
		}
		c.Sample(map[string]interface{}{"document": x, "accepted": want, "case": what})
	}
	plain := func(i, j int, v float64) (string, bool) { return num(v), true }

	kinds := []struct {
		kind string
		outs int
	}{{"ensemble", 1}, {"ensemble", 2}, {"ensemble", 3}, {"reg", 1}, {"tree", 1}, {"softmax", 3}}
	maxRows := 3
	if c.Thorough {
		maxRows = 4
	}
	for _, k := range kinds {
		d, names := verifDoc(k.kind, k.outs)
		for r := 0; r <= maxRows; r++ {
			for start := range verifMags {
				var xs []float64
				for i := 0; i < r; i++ {
					xs = append(xs, verifMags[(start+i*5)%len(verifMags)])
				}
				for i, x := range xs {
					if k.kind == "softmax" && (x > 1e4 || x < -1e4) {
						xs[i] = 7
					}
				}
				for _, prefix := range []string{"", "col_"} {
					for _, flip := range []bool{false, true} {
						c.Case(fmt.Sprintf("%s/%d %d rows from %d %q %v", k.kind, k.outs, r, start, prefix, flip), func() {
							c.r.States++
							c.Bound("rows, every deviation", r)
							e, ok := build13(d, names, xs, plain, prefix, flip)
							verify(e, ok, "no deviation")
							for a := 0; a < r; a++ {
								for b := range names {
									for _, dk := range devKinds {
										e, ok := build13(d, names, xs, func(i, j int, v float64) (string, bool) {
											if i == a && j == b {
												if t, good, app := dk.f(v); app {
													return t, good
												}
											}
											return num(v), true
										}, prefix, flip)
										verify(e, ok, fmt.Sprintf("%s at row %d column %d", dk.name, a, b))
									}
									// the expectation is left out: nothing to compare
									e, _ := build13(d, names, xs, func(i, j int, v float64) (string, bool) {
										if i == a && j == b {
											return "-", true
										}
										return num(v), true
									}, prefix, flip)
									verify(e, true, fmt.Sprintf("no expectation at row %d column %d", a, b))
									// two deviations, one acceptable and one not, in both orders
									for a2 := 0; a2 < r; a2++ {
										for b2 := range names {
											if a2 == a && b2 == b || start > 2 && !c.Thorough {
												continue
											}
											e, ok := build13(d, names, xs, func(i, j int, v float64) (string, bool) {
												if i == a && j == b {
													t, g, _ := devKinds[0].f(v)
													return t, g || v == 0
												}
												if i == a2 && j == b2 {
													if t, g, app := devKinds[7].f(v); app {
														return t, g
													}
													return "1", false
												}
												return num(v), true
											}, prefix, flip)
											verify(e, ok, fmt.Sprintf("deviations at %d,%d and %d,%d", a, b, a2, b2))
										}
									}
								}
							}
						})
					}
				}
			}
		}
	}
	// Outputs the model does not produce, predictions that are not numbers or fail, in any row.
	for r := 1; r <= 3; r++ {
		for bad := -1; bad < r; bad++ {
			for _, what := range []string{"unknown output", "NaN", "Inf", "null", "error", "label missing"} {
				for e := range verifMags {
					c.Case(fmt.Sprintf("%s %d rows bad %d expect %d", what, r, bad, e), func() {
						c.r.States++
						exp := verifMags[e]
						m := &Mdl{Kind: "reg", Func: "regression", MFs: active("x", "w"), LT: []DF{dfC("z", eA("-", eF("x"), eA("*", eF("w"), eA("/", eK("1"), eF("w")))))}, Tables: []Table{{Intercept: 0, Nums: []NumPred{{"z", 1, 0}}}}, Out: []OutF{{Name: "o"}}}
						badRow := [][2]string{}
						switch what {
						case "NaN": // 0 * (1/0)
							badRow = [][2]string{{"x", "1"}, {"w", "0"}, {"o", num(exp)}}
						case "Inf":
							m.LT[0].Expr = eA("/", eF("x"), eA("-", eF("w"), eK("1")))
							badRow = [][2]string{{"x", "5"}, {"w", "1"}, {"o", num(exp)}}
						case "error": // missing predictor
							badRow = [][2]string{{"w", "1"}, {"o", num(exp)}}
						case "null", "label missing":
							m = &Mdl{Kind: "tree", Func: "regression", MFs: active("x", "w"), MVS: "nullPrediction", Root: &Node{ID: "r", Score: "0", Pred: pTrue(), Kids: []*Node{{ID: "k", Score: num(exp), Pred: pS("x", "greaterThan", "-1e300")}}}}
							badRow = [][2]string{{"w", "1"}, {"o", num(exp)}}
							if what == "label missing" {
								badRow = [][2]string{{"x", "1"}, {"o", num(exp)}, {"u", num(exp)}}
							}
						case "unknown output":
							badRow = [][2]string{{"x", "2"}, {"w", "1"}, {"o", num(exp)}, {"u", num(exp)}}
							badRow[2][1] = "1"
						}
						good := [][2]string{{"x", num(exp + 1)}, {"w", "1"}, {"o", num(exp + 1 - 1)}}
						out := "o"
						if m.Kind == "tree" {
							good = [][2]string{{"x", "3"}, {"o", num(exp)}}
							out = "score"
						}
						if what == "Inf" {
							good = [][2]string{{"x", num(exp)}, {"w", "2"}, {"o", num(exp)}}
						}
						v := &Verification{Fields: []VField{{Field: "x", Column: "x"}, {Field: "w", Column: "w"}, {Field: out, Column: "o", Precision: "1e-6"}, {Field: "unknown", Column: "u", Precision: "1e-6"}}}
						for i := 0; i < r; i++ {
							if i == bad {
								v.Rows = append(v.Rows, badRow)
							} else {
								v.Rows = append(v.Rows, good)
							}
						}
						m.Verif = v
						verify(&Doc{Fields: dbl("x", "w"), Model: m}, bad < 0, what)
					})
				}
			}
		}
	}
	// Neither counts nor the declared precision nor the zero threshold have a say in what is accepted.
	for _, k := range kinds {
		d, names := verifDoc(k.kind, k.outs)
		xs := []float64{3, -1, 0.001, 0}
		for _, cnt := range []string{"", "0", "1", "2", "4", "5", "-1"} {
			for _, prec := range []string{"1e-6", "1e-12", "0", "0.01", "0.1", "1", "2", "100", "-1"} {
				for _, zero := range []string{"", "0", "1e-16", "0.01", "1"} {
					c.Case(fmt.Sprintf("%s/%d count %q precision %s zero %q", k.kind, k.outs, cnt, prec, zero), func() {
						c.r.States++
						for a := -1; a < len(xs); a++ {
							for b := range names {
								for di, dk := range devKinds {
									if a < 0 && (di > 0 || b > 0) {
										continue
									}
									e, ok := build13(d, names, xs, func(i, j int, v float64) (string, bool) {
										if i == a && j == b {
											if t, good, app := dk.f(v); app {
												return t, good
											}
										}
										return num(v), true
									}, "", di%2 == 1)
									if e == nil {
										continue
									}
									e.Model.Verif.RowCount, e.Model.Verif.FieldCount = cnt, cnt
									n := 0
									for i := range e.Model.Verif.Fields {
										f := &e.Model.Verif.Fields[i]
										if f.Precision != "" && (di%3 != 0 || n > 0) {
											f.Precision = prec
										}
										if f.Precision != "" {
											n++
										}
										f.Zero = zero
									}
									verify(e, ok, dk.name)
								}
							}
						}
					})
				}
			}
		}
	}
	// Columns are told apart by their exact names, and have nothing to do with the names of fields.
	colNames := []string{"v", "V", "vv", "v-1", "v.1", "v_1", "_v", "é", "É", "x", "o0", "o1", "X", "O0", "data", "row", "field", "column", "precision", "xmlns-", "v1", "v01"}
	for ai, a := range colNames {
		for bi, b := range colNames {
			for ci, cn := range colNames {
				if ai == bi || ai == ci || bi == ci {
					continue
				}
				c.Case(fmt.Sprintf("columns %s %s %s", a, b, cn), func() {
					c.r.States++
					d, names := verifDoc("ensemble", 2)
					for k := -1; k < 4; k++ {
						e, ok := build13(d, names, []float64{3, -1}, func(i, j int, v float64) (string, bool) {
							if i*2+j == k {
								return num(v * 1.01), false
							}
							return num(v), true
						}, "", false)
						if e == nil {
							return
						}
						ren := map[string]string{"x": a, names[0]: b, names[1]: cn}
						vf := e.Model.Verif
						for i := range vf.Fields {
							vf.Fields[i].Column = ren[vf.Fields[i].Column]
						}
						for i := range vf.Rows {
							for j := range vf.Rows[i] {
								vf.Rows[i][j][0] = ren[vf.Rows[i][j][0]]
							}
						}
						verify(e, ok, fmt.Sprintf("columns %v", ren))
					}
				})
			}
		}
	}
	// An expected output the model does not produce is missing, whatever its column is called.
	for _, k := range kinds {
		d, names := verifDoc(k.kind, k.outs)
		for ni, n := range names {
			for _, other := range []string{"zz", "x", "O0", strings.ToUpper(n), n + " ", " " + n, n + n, "data:" + n, "probability(" + n + ")", "Score", "score", "y", "o9", "in put"} {
				if contains(names, other) {
					continue
				}
				c.Case(fmt.Sprintf("%s/%d has no output %q in column %s", k.kind, k.outs, other, n), func() {
					c.r.States++
					for _, xs := range [][]float64{{3}, {0}, {3, 0, 1}} {
						for flip := 0; flip < 2; flip++ {
							e, _ := build13(d, names, xs, plain, "", flip == 1)
							if e == nil {
								return
							}
							for i := range e.Model.Verif.Fields {
								if e.Model.Verif.Fields[i].Field == n {
									e.Model.Verif.Fields[i].Field = other
								}
							}
							verify(e, false, fmt.Sprintf("output %d is called %q", ni, other))
						}
					}
				})
			}
		}
	}
	// Long and wide tables: one deviation anywhere.
	sizes := []int{10, 33, 70, 130, 300}
	if c.mode == nil {
		sizes = append(sizes, 1100)
	}
	if c.Thorough {
		sizes = append(sizes, 64, 65, 128, 129, 257, 600)
	}
	for _, n := range sizes {
		for pos := 0; pos < n; pos++ {
			if n > 40 && pos%5 != 0 && pos < n-2 || n > 200 && !positions(n).has(pos) {
				continue
			}
			c.Case(fmt.Sprintf("long %d at %d", n, pos), func() {
				c.r.States++
				c.Bound("rows, swept", n)
				var xs []float64
				for i := 0; i < n; i++ {
					xs = append(xs, float64(i)-3.5)
				}
				for _, col := range []int{0, 1} {
					for _, dk := range []devKind{devKinds[3], devKinds[7], devKinds[9]} {
						d, names := verifDoc("ensemble", 2)
						e, ok := build13(d, names, xs, func(i, j int, v float64) (string, bool) {
							if i == pos && j == col {
								t, g, _ := dk.f(v)
								return t, g
							}
							return num(v), true
						}, "c", false)
						verify(e, ok, dk.name)
					}
				}
			})
			if n > 70 {
				continue
			}
			c.Case(fmt.Sprintf("wide %d at %d", n, pos), func() {
				c.r.States++
				c.Bound("columns, swept", n)
				d, names := verifDoc("ensemble", n)
				for row := 0; row < 2; row++ {
					e, ok := build13(d, names, []float64{1.5, -2}, func(i, j int, v float64) (string, bool) {
						if i == row && j == pos {
							return num(v * 1.5), false
						}
						return num(v), true
					}, "", row == 1)
					verify(e, ok, "one wrong column")
				}
			})
		}
	}
	// Expectations and predictions that are not numbers are refused, also where a number read from them would be 0.
	words := []string{"abc", "1e", "--1", "1,5", "0,0", "zero", "nil", "null", "NaN", "false", "0 0", "0;", "x0", "+", "e0", "."}
	for _, k := range kinds {
		d, names := verifDoc(k.kind, k.outs)
		for wi, w := range words {
			c.Case(fmt.Sprintf("%s/%d expects %q", k.kind, k.outs, w), func() {
				c.r.States++
				for _, xs := range [][]float64{{0}, {3, 0}, {0, 3}, {0, 0.001, 0}, {1, 0, 3}} {
					for a := range xs {
						for b := range names {
							e, _ := build13(d, names, xs, func(i, j int, v float64) (string, bool) {
								if i == a && j == b {
									return w, false
								}
								return num(v), true
							}, "", wi%2 == 1)
							verify(e, false, fmt.Sprintf("row %d output %d expects %q", a, b, w))
						}
					}
				}
			})
		}
	}
	for _, w := range append(words, "", "a b") {
		for _, exp := range append([]string{"0", "1", "0.0", "-0"}, w) {
			for _, ens := range []string{"", "selectFirst", "modelChain"} {
				c.Case(fmt.Sprintf("label %q expects %q %s", w, exp, ens), func() {
					c.r.States++
					if w == "" {
						return
					}
					for n := 1; n <= 3; n++ {
						for bad := 0; bad < n; bad++ {
							m := &Mdl{Kind: "tree", Func: "classification", MFs: append(active("x"), MF{Name: "y", Usage: "target"}), Root: &Node{ID: "r", Score: w, Pred: pTrue()}}
							d := &Doc{Fields: append(dbl("x"), Field{Name: "y", Type: "string", OpType: "categorical"}), Model: m}
							if ens != "" {
								d.Model = &Mdl{Kind: "mining", Func: "classification", Method: ens, MFs: append(active("x"), MF{Name: "y", Usage: "target"}), Segs: []*Seg{{Pred: pTrue(), Model: m}}}
							}
							prob := "probability(" + w + ")"
							v := &Verification{Fields: []VField{{Field: "x", Column: "x"}, {Field: prob, Column: "p", Precision: "1e-6"}, {Field: "y", Column: "y", Precision: "1e-6"}}}
							for i := 0; i < n; i++ {
								row := [][2]string{{"x", "1"}, {"p", "1"}}
								if i == bad {
									row = append(row, [2]string{"y", exp})
								}
								v.Rows = append(v.Rows, row)
							}
							d.Model.Verif = v
							verify(d, false, fmt.Sprintf("row %d: the label %q is expected to be %q", bad, w, exp))
						}
					}
				})
			}
		}
	}
	// Models without verification data, or with an empty table, verify; whole zoo verifies, and stops doing so when one number is changed.
	items := zoo()
	for zi := range items {
		it := &items[zi]
		c.Case("zoo "+it.name, func() {
			c.r.States++
			verify(it.doc, true, "no verification data")
			vd := it.verification()
			verify(vd, true, "reference expectations")
			for ri, r := range vd.Model.Verif.Rows {
				for ci, cell := range r {
					if !strings.HasPrefix(cell[0], "c") || !strings.Contains(cell[0], "_") {
						continue
					}
					for _, nv := range []string{"0.123456", "-" + cell[1], "0"} {
						if nv == cell[1] || cell[1] == "0" && nv == "-0" {
							continue
						}
						old := vd.Model.Verif.Rows[ri][ci][1]
						vd.Model.Verif.Rows[ri][ci][1] = nv
						verify(vd, false, fmt.Sprintf("row %d column %s changed from %s to %s", ri, cell[0], old, nv))
						vd.Model.Verif.Rows[ri][ci][1] = old
					}
				}
			}
		})
	}
}
