package main

import (
	"fmt"
	"math"
	"strings"
)

func init() {
	register(&prop{id: "C09", level: "model_checking",
		what:   "one state per document (model class x set of fields with a declared replacement x level of the declaration x types); one transition per library call; one validated trace per row over absent/nil/present (including 0, false and the empty string), compared both with the reference and with the library's own result for the row with the replacements supplied. Complete enumeration over the stated alphabets.",
		assume: []string{"a replacement declared at a level reaches everything below it"},
		run:    runC09})
}

// consumers of fields d, e (double), i (integer), s (string), b (boolean)
func replModels() map[string]func() *Mdl {
	tree := func(mvs string) func() *Mdl {
		return func() *Mdl {
			return &Mdl{Kind: "tree", Func: "regression", MVS: mvs, Root: &Node{ID: "r", Score: "0", Pred: pTrue(), DefaultChild: "2", Kids: []*Node{
				{ID: "1", Score: "1", Pred: pC("and", pS("d", "lessThan", "1"), pS("s", "equal", "a"))},
				{ID: "2", Score: "2", DefaultChild: "4", Pred: pC("or", pS("d", "greaterThan", "2"), pS("b", "equal", "true")), Kids: []*Node{{ID: "3", Score: "3", Pred: pS("i", "equal", "0")}, {ID: "4", Score: "4", Pred: pS("i", "greaterThan", "0")}}},
				{ID: "5", Score: "5", Pred: &Pred{Kind: "set", Field: "s", Op: "isIn", Array: []string{"", "b"}, ArrayType: "string"}},
				{ID: "6", Score: "6", Pred: pS("i", "isMissing", "")},
				{ID: "7", Score: "7", Pred: pS("e", "isNotMissing", "")}}}}
		}
	}
	reg := func() *Mdl {
		return &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Intercept: 1, Nums: []NumPred{{"d", 2, 0}, {"e", 3, 2}, {"i", 10, 0}}, Cats: []CatPred{{"k", "a", 100}, {"k", "b", 200}}}}, Out: []OutF{{Name: "out"}}}
	}
	logit := func() *Mdl {
		return &Mdl{Kind: "reg", Func: "classification", Norm: "logit", Tables: []Table{{Category: "1", Intercept: 1, Nums: []NumPred{{"d", 0.2, 0}, {"e", 0.3, 0}}}, {Category: "0"}}, Out: outs("1", "0")}
	}
	derived := func() *Mdl {
		return &Mdl{Kind: "reg", Func: "regression", LT: []DF{dfC("z", eA("+", eF("d"), eA("if", eA("isMissing", eF("e")), eK("1000"), eF("e")))),
			dfC("w", &Expr{Kind: "map", Cols: [][2]string{{"c", "s"}}, OutCol: "o", Rows: [][]string{{"a", "10"}, {"b", "20"}, {"", "30"}}, MapMissing: sp("40")})},
			Tables: []Table{{Nums: []NumPred{{"z", 1, 0}, {"w", 100, 0}}}}, Out: []OutF{{Name: "out"}}}
	}
	seg := func(method string, ms ...func() *Mdl) func() *Mdl {
		return func() *Mdl {
			m := &Mdl{Kind: "mining", Func: "regression", Method: method, Out: []OutF{{Name: "total"}}}
			for i, f := range ms {
				p := pTrue()
				if i > 0 && method != "modelChain" {
					p = pS("e", []string{"isNotMissing", "greaterOrEqual"}[i%2], "0")
				}
				m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: p, Model: f()})
			}
			return m
		}
	}
	r := map[string]func() *Mdl{}
	for _, mvs := range []string{"", "lastPrediction", "nullPrediction", "defaultChild"} {
		r["tree-"+mvs] = tree(mvs)
	}
	r["reg"], r["logit"], r["derived"] = reg, logit, derived
	r["sum"] = seg("sum", tree(""), derived, reg)
	r["average"] = seg("average", tree(""), tree("lastPrediction"))
	r["selectFirst"] = func() *Mdl {
		m := seg("selectFirst", reg, tree(""))()
		m.Segs[0].Pred = pS("i", "equal", "0")
		m.Segs[1].Pred = pTrue()
		return m
	}
	r["chain"] = seg("modelChain", tree(""), reg, derived)
	r["nested"] = seg("sum", seg("average", tree(""), derived), seg("modelChain", tree(""), reg))
	r["ensemble-derived"] = func() *Mdl {
		m := seg("sum", tree(""), func() *Mdl {
			return &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Nums: []NumPred{{"z", 1, 0}}}}, Out: []OutF{{Name: "o"}}}
		})()
		m.LT = []DF{dfC("z", eA("+", eF("d"), eF("e")))}
		return m
	}
	r["dictionary"] = func() *Mdl {
		return &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Nums: []NumPred{{"t", 1, 0}, {"d", 7, 0}}}}, Out: []OutF{{Name: "o"}}}
	}
	r["dictionary-nested"] = seg("sum", r["dictionary"], tree(""))
	return r
}

func runC09(c *Ctx) {
	names := []string{"d", "e", "i", "s", "b"}
	fs := []Field{{Name: "d", Type: "double"}, {Name: "e", Type: "float"}, {Name: "i", Type: "integer"}, {Name: "s", Type: "string"}, {Name: "b", Type: "boolean"}, {Name: "k", Type: "string"}}
	repls := map[string][]string{"d": {"2.5", "0"}, "e": {"-1", "0"}, "i": {"0", "5"}, "s": {"a", ""}, "b": {"true", "false"}}
	present := map[string][]interface{}{"d": {0.0, 3.0}, "e": {0.0, 1.5}, "i": {int64(0), int64(3)}, "s": {"", "b"}, "b": {false, true}}
	nan := math.NaN()
	oddValues := map[string][]interface{}{
		"d": {nan, math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1e300, 5e-324, float32(0), int64(0), -1.0, -999.0, "NaN", "0", "null", "", " "},
		"e": {nan, math.Inf(1), math.Inf(-1), math.Copysign(0, -1), float32(math.NaN()), -9999.0, "NaN", ""},
		"i": {int64(math.MinInt64), int64(-1), int64(math.MaxInt64), 0.0, nan, "0", ""},
		"s": {"NaN", "null", "nil", "<nil>", "None", "NA", "?", " ", "-", "undefined", "0", "missing", nan, 0.0, false},
		"b": {false, "false", "", 0.0, nan},
	}
	models := replModels()
	var keys []string
	for k := range models {
		keys = append(keys, k)
	}
	sortStrings(keys)
	levels := []string{"top", "bottom", "all"}
	for _, key := range keys {
		for _, lev := range levels {
			for mask := 0; mask < 32; mask++ {
				for which := 0; which < 3; which++ {
					if mask == 0 && which > 0 || which == 2 && mask%7 != 3 && !c.Thorough {
						continue
					}
					c.Case(fmt.Sprintf("%s %s %05b %d", key, lev, mask, which), func() {
						rebuilt := func(mask int) *Doc {
							m := models[key]()
							decl := func(x *Mdl) {
								for j, n := range names {
									f := MF{Name: n}
									if which == 2 { // what a field is used for does not matter
										f.Usage = []string{"active", "supplementary"}[(j+mask/2)%2]
									}
									if mask>>j&1 == 1 {
										f.Repl = sp(repls[n][(which+j)%2])
									}
									x.MFs = append(x.MFs, f)
								}
								x.MFs = append(x.MFs, MF{Name: "k"})
							}
							var walk func(x *Mdl, top bool)
							walk = func(x *Mdl, top bool) {
								leaf := len(x.Segs) == 0
								if lev == "all" || lev == "top" && top || lev == "bottom" && leaf {
									decl(x)
								} else {
									x.MFs = active(append(names, "k")...)
								}
								for _, s := range x.Segs {
									walk(s.Model, false)
								}
							}
							walk(m, true)
							return &Doc{Fields: fs, Model: m, TD: []DF{dfC("t", eA("+", eF("d"), eA("*", eF("e"), eK("2"))))}}
						}
						d := rebuilt(mask)
						m := d.Model
						// rows: per field absent, nil, or one of two values; two fields vary at a time against four backgrounds
						var rows []Row
						bgs := []int{0, 1, 2, 3}
						seen := map[string]bool{}
						for _, bg := range bgs {
							for i := 0; i < len(names); i++ {
								for j := i; j < len(names); j++ {
									vectors(2, 4, func(v []int) {
										r := Row{"k": "a"}
										for q, n := range names {
											st := bg
											if q == i {
												st = v[0]
											}
											if q == j {
												st = v[1]
											}
											switch st {
											case 1:
												r[n] = nil
											case 2, 3:
												r[n] = present[n][st-2]
											}
										}
										if k := r.String(); !seen[k] {
											seen[k] = true
											rows = append(rows, r)
										}
									})
								}
							}
						}
						c.Check(d, rows...)
						// Differential: the library's own answer with the replacements supplied, here and in the
						// document that declares none. Present values of any kind are left alone, however odd.
						mdl, err := build(d.XML())
						if err != nil {
							c.Fail(d.XML(), "refused: %v", err)
						}
						plain, err := build(rebuilt(0).XML())
						if err != nil {
							c.Fail(rebuilt(0).XML(), "refused: %v", err)
						}
						partial := lev == "bottom" && len(m.Segs) > 0
						for _, bg := range bgs {
							for _, n := range names {
								for _, o := range oddValues[n] {
									r := Row{"k": "a", n: o}
									for j, q := range names {
										if q != n && bg > 1 {
											r[q] = present[q][bg-2]
										} else if q != n && bg == 1 {
											r[q] = oddValues[q][j%len(oddValues[q])]
										}
									}
									rows = append(rows, r)
								}
							}
						}
						for _, r := range rows {
							q := r.clone()
							all := true
							for j, n := range names {
								if mask>>j&1 == 1 && q[n] == nil {
									q[n] = repls[n][(which+j)%2]
									all = false
								}
							}
							if partial && !all {
								continue
							}
							a, b, z := score(mdl, r), score(mdl, q), score(plain, q)
							c.r.Transitions += 3
							c.r.Validated++
							if a.Kind != b.Kind || a.Kind == resOut && !identical(a, b) {
								c.Fail(d.XML()+"\n"+r.String(), "row %v gives %v, but with the replacements supplied %v", r, a, b)
							}
							if a.Kind != z.Kind || a.Kind == resOut && !identical(a, z) {
								c.Fail(d.XML()+"\n"+r.String(), "row %v gives %v, but %v with the replacements supplied to the document that declares none", r, a, z)
							}
						}
					})
				}
			}
		}
	}
	// What else a mining field declares about the replacement's origin, or about values that are neither missing nor out of the ordinary, does not matter.
	for _, more := range []string{"missingValueTreatment=asIs", "missingValueTreatment=asMean", "missingValueTreatment=asMode", "missingValueTreatment=asMedian", "missingValueTreatment=asValue", "importance=0", "importance=0.5", "optype=continuous", "optype=categorical", "optype=ordinal", "outliers=asIs", "invalidValueTreatment=returnInvalid", "displayName=nil"} {
		for _, key := range keys {
			for _, lev := range levels {
				c.Case(fmt.Sprintf("declares %s %s %s", more, key, lev), func() {
					m := models[key]()
					var walk func(x *Mdl, top bool)
					walk = func(x *Mdl, top bool) {
						x.MFs = active(append(names, "k")...)
						if lev == "all" || lev == "top" && top || lev == "bottom" && len(x.Segs) == 0 {
							for j, n := range names {
								x.MFs[j].Repl, x.MFs[j].More = sp(repls[n][0]), more
							}
						}
						for _, s := range x.Segs {
							walk(s.Model, false)
						}
					}
					walk(m, true)
					d := &Doc{Fields: fs, Model: m, TD: []DF{dfC("t", eA("+", eF("d"), eA("*", eF("e"), eK("2"))))}}
					rows := []Row{{"k": "a"}}
					for _, n := range names {
						all := Row{"k": "a"}
						for _, o := range names {
							all[o] = present[o][1]
						}
						rows = append(rows, all.clone(), Row{"k": "a", n: present[n][0]}, Row{"k": "a", n: nil})
						delete(all, n)
						rows = append(rows, all)
					}
					c.Check(d, rows...)
				})
			}
		}
	}
	// The replacement is the text as it is written: every text x consumer x level, against texts nearly like it.
	texts := []string{"", " ", "a", " a", "a ", " n/a", "A", "007", "7", "7.0", "+7", "1e3", "1000", "true", "TRUE", "1", "0", "-0", "false", "NA", "é", "É", "null", "NaN", "<a&b>", "\"a\" b", "a b", "a  b", "missing"}
	for ti, t := range texts {
		var near []string
		for _, u := range append([]string{strings.TrimSpace(t), strings.ToLower(t), strings.ToUpper(t), strings.TrimLeft(t, "0+"), strings.Join(strings.Fields(t), " "), t + " ", " " + t}, texts...) {
			if u != t && !contains(near, u) {
				near = append(near, u)
			}
		}
		for _, typ := range []string{"string", "other"} {
			for kind := 0; kind < 5; kind++ {
				for _, lev := range levels {
					c.Case(fmt.Sprintf("replacement text %d %s %d %s", ti, typ, kind, lev), func() {
						var m *Mdl
						d := &Doc{Fields: []Field{{Name: "s", Type: "string", OpType: "categorical"}, {Name: "x", Type: "double"}}}
						switch kind {
						case 0: // equality
							m = &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "-1", Pred: pTrue()}}
							for i, u := range append(near, t) {
								m.Root.Kids = append(m.Root.Kids, &Node{ID: fmt.Sprint(i), Score: fmt.Sprint(i), Pred: pS("s", "equal", u)})
							}
						case 1: // sets
							m = &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "-1", Pred: pTrue()}}
							for i, u := range append(near, t) {
								m.Root.Kids = append(m.Root.Kids, &Node{ID: fmt.Sprint(i), Score: fmt.Sprint(i), Pred: &Pred{Kind: "set", Field: "s", Op: "isIn", Array: []string{u}, ArrayType: "string"}})
							}
							m.Root.Kids = append(m.Root.Kids, &Node{ID: "not", Score: "1000", Pred: &Pred{Kind: "set", Field: "s", Op: "isNotIn", Array: near, ArrayType: "string"}})
						case 2: // categories
							m = &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{}}, Out: []OutF{{Name: "out"}}}
							for i, u := range append(near, t) {
								m.Tables[0].Cats = append(m.Tables[0].Cats, CatPred{"s", u, float64(i + 1)})
							}
						case 3: // lookup
							e := &Expr{Kind: "map", Cols: [][2]string{{"c", "s"}}, OutCol: "o", Default: sp("-7"), MapMissing: sp("-9")}
							for i, u := range append(near, t) {
								e.Rows = append(e.Rows, []string{u, fmt.Sprint(i)})
							}
							m = reader(false)
							m.LT = []DF{dfC("z", e)}
						case 4: // passed on, and taken over into an ensemble's predicates
							m = &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "out"}}, LT: []DF{{Name: "q", OpType: "categorical", DataType: "string", Expr: eF("s")}}}
							for i, u := range append(near, t) {
								m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: pS("q", "equal", u), Model: constTree(fmt.Sprint(i + 1))})
							}
							m.Segs = append(m.Segs, &Seg{ID: "all", Pred: pTrue(), Model: constTree("0.5")})
						}
						f := MF{Name: "s", Repl: sp(t)}
						if lev != "bottom" && kind < 4 {
							m = &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "total"}}, MFs: []MF{f}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: m}}}
							if lev == "all" {
								m.Segs[0].Model.MFs = []MF{f}
							} else {
								m.Segs[0].Model.MFs = active("s")
							}
						} else {
							withMFs(m, "s")
							m.MFs = []MF{f}
						}
						if typ == "other" { // another field has a replacement, too
							m.MFs = append([]MF{{Name: "x", Repl: sp("7")}}, m.MFs...)
						}
						d.Model = m
						rows := []Row{{}, {"s": nil}, {"s": t}, {"x": 1.0}}
						for _, u := range near {
							rows = append(rows, Row{"s": u})
						}
						c.Check(d, rows...)
						mdl, err := build(d.XML())
						if err != nil {
							c.Fail(d.XML(), "refused: %v", err)
						}
						for _, r := range rows[:2] {
							a, b := score(mdl, r), score(mdl, rows[2])
							c.r.Transitions += 2
							c.r.Validated++
							if a.Kind != b.Kind || a.Kind == resOut && !identical(a, b) {
								c.Fail(d.XML()+"\n"+r.String(), "row %v gives %v, but with the replacement %q supplied %v", r, a, t, b)
							}
						}
					})
				}
			}
		}
	}
	// Many fields, each with its own replacement; each one missing alone, all missing, all but one missing.
	sizes := []int{10, 40, 130, 300}
	if c.mode == nil {
		sizes = append(sizes, 1100)
	}
	if c.Thorough {
		sizes = append(sizes, 64, 65, 128, 129, 257)
	}
	for _, n := range sizes {
		for _, kind := range []string{"reg", "tree", "sum"} {
			c.Case(fmt.Sprintf("%d fields %s", n, kind), func() {
				t := Table{}
				m := &Mdl{Kind: "reg", Func: "regression", Out: []OutF{{Name: "out"}}}
				root := &Node{ID: "r", Score: "-1", Pred: pTrue()}
				var mfs []MF
				full := Row{}
				for i := 0; i < n; i++ {
					t.Nums = append(t.Nums, NumPred{leafName(i), float64(i%9) + 0.5, 0})
					mfs = append(mfs, MF{Name: leafName(i), Repl: sp(num(float64(i) + 0.25))})
					full[leafName(i)] = float64(-i)
					root.Kids = append(root.Kids, &Node{ID: fmt.Sprint(i), Score: num(float64(i)), Pred: pS(leafName(i), "equal", num(float64(i)+0.25))})
				}
				m.Tables = []Table{t}
				if kind == "tree" {
					m = &Mdl{Kind: "tree", Func: "regression", Root: root}
				}
				m.MFs = mfs
				if kind == "sum" {
					tr := &Mdl{Kind: "tree", Func: "regression", Root: root, MFs: active(leafNames(n)...)}
					rg := *m
					rg.MFs = active(leafNames(n)...)
					m = &Mdl{Kind: "mining", Func: "regression", Method: "sum", MFs: mfs, Out: []OutF{{Name: "o"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: tr}, {ID: "2", Pred: pTrue(), Model: &rg}}}
				}
				rows := []Row{full, {}}
				for i := 0; i < n; i++ {
					a := full.clone()
					delete(a, leafName(i))
					b := full.clone()
					b[leafName(i)] = nil
					rows = append(rows, a, b, Row{leafName(i): 0.0})
				}
				c.Bound("fields with replacements, swept", n)
				c.Check(&Doc{Fields: dbl(leafNames(n)...), Model: m}, rows...)
			})
		}
	}
}
