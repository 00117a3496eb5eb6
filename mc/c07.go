package main

import (
	"fmt"
	"math"
)

func init() {
	register(&prop{id: "C07", level: "model_checking",
		what: "one state per ensemble document (method x function x segment kinds x outputs x targets x nesting); one transition per library call; one validated trace per assignment of true/false/unknown to the segment predicates and value of the inputs, compared with the reference combination. Complete enumeration up to the segment bound; larger ensembles are swept with every position of one and two deviating segments.",
		assume: []string{"unspecified: no segment applies, a combined segment without prediction, targets of classification ensembles and of chains (see the known findings of C14)",
			"sums are compared up to rounding"},
		run: runC07})
}

func segPred(i int) *Pred { return pS(fmt.Sprint("p", i), "equal", "1") }

func predFields(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint("p", i))
	}
	return r
}

func rows3p(n int) []Row {
	var rows []Row
	for _, r := range rows3(n) {
		q := Row{}
		for i := 0; i < n; i++ {
			if v, ok := r[leafName(i)]; ok {
				q[fmt.Sprint("p", i)] = v
			}
		}
		rows = append(rows, q)
	}
	return rows
}

func cross(a, b []Row) []Row {
	var out []Row
	for _, x := range a {
		for _, y := range b {
			r := x.clone()
			for k, v := range y {
				r[k] = v
			}
			out = append(out, r)
		}
	}
	return out
}

// numeric segment models: one number each, depending on x where it makes sense.
func numSeg(kind, i int, fields []string) *Mdl {
	w := float64(i+1) * 1.25
	var m *Mdl
	switch kind {
	case 0:
		m = constTree(num(w))
	case 1:
		m = &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: num(-w), Pred: pTrue(), Kids: []*Node{
			{ID: "a", Score: num(w), Pred: pS("x", "lessThan", "1")}, {ID: "b", Score: num(3 * w), Pred: pS("x", "greaterThan", "1")}}}}
	case 2:
		m = &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Intercept: w, Nums: []NumPred{{"x", 0.5, 0}}}}, Out: []OutF{{Name: fmt.Sprint("r", i)}}}
	case 3:
		m = &Mdl{Kind: "mining", Func: "regression", Method: "average", Out: []OutF{{Name: "inner"}}, Segs: []*Seg{
			{ID: "a", Pred: pTrue(), Model: constTree(num(w))}, {ID: "b", Pred: pS("x", "greaterThan", "0"), Model: constTree(num(2 * w))}}}
	case 4:
		m = &Mdl{Kind: "mining", Func: "regression", Method: "selectFirst", Segs: []*Seg{
			{ID: "a", Pred: pS("x", "greaterThan", "1"), Model: constTree(num(w))}, {ID: "b", Pred: pTrue(), Model: constTree(num(-3 * w))}}}
	case 6: // a prediction for positive x only
		m = &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: num(w), Pred: pS("x", "greaterThan", "0")}}
	case 7: // always an error
		m = &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Nums: []NumPred{{"nowhere", 1, 0}}}}, Out: []OutF{{Name: fmt.Sprint("r", i)}}}
	case 5:
		m = &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "score"}}, Tgts: []Tgt{{Field: "score", Factor: fp(2), Offset: fp(1)}}, Segs: []*Seg{
			{ID: "a", Pred: pTrue(), Model: constTree(num(w))}, {ID: "b", Pred: pTrue(), Model: constTree(num(0.25))}}}
	}
	return withMFs(m, fields...)
}

// class segment models over classes a, b (and c).
func clsSeg(kind, i int, fields []string) *Mdl {
	q := 0.1 + float64(i%5)*0.125
	var m *Mdl
	switch kind {
	case 0:
		m = &Mdl{Kind: "tree", Func: "classification", Root: &Node{ID: "r", Pred: pTrue(), Dist: []SD{{"a", 1, fp(q)}, {"b", 1, fp(1 - q)}}}}
	case 1:
		m = &Mdl{Kind: "tree", Func: "classification", Root: &Node{ID: "r", Pred: pTrue(), Dist: []SD{{"a", float64(i + 1), nil}, {"b", 2, nil}, {"c", 3, nil}},
			Kids: []*Node{{ID: "k", Pred: pS("x", "greaterThan", "0"), Dist: []SD{{"b", 1, fp(q)}, {"c", 3, fp(1 - q)}}}}}}
	case 2:
		m = &Mdl{Kind: "reg", Func: "classification", Norm: "softmax", Tables: []Table{{Category: "a", Intercept: q, Nums: []NumPred{{"x", 0.5, 0}}}, {Category: "b"}}, Out: []OutF{{"probability(a)", "probability", "a"}, {"probability(b)", "probability", "b"}}}
	case 3:
		m = &Mdl{Kind: "mining", Func: "classification", Method: "average", Out: []OutF{{"probability(a)", "probability", "a"}, {"probability(c)", "probability", "c"}}, Segs: []*Seg{
			{ID: "1", Pred: pTrue(), Model: clsSeg(1, i, nil)}, {ID: "2", Pred: pS("x", "greaterThan", "0"), Model: clsSeg(1, i+1, nil)}}}
	}
	if kind == 4 {
		m = &Mdl{Kind: "tree", Func: "classification", Root: &Node{ID: "r", Pred: pS("x", "greaterThan", "0"), Dist: []SD{{"a", 1, fp(q)}, {"b", 1, fp(1 - q)}}}}
	}
	if kind == 5 { // shares below 0 and above 1
		m = &Mdl{Kind: "reg", Func: "classification", Norm: "simplemax", Tables: []Table{{Category: "a", Intercept: 1.5 + q, Nums: []NumPred{{"x", 1, 0}}}, {Category: "b", Intercept: -0.5}}, Out: []OutF{{"probability(a)", "probability", "a"}, {"probability(b)", "probability", "b"}}}
	}
	m.MFs = append(m.MFs, MF{Name: "y", Usage: "target"})
	return withMFs(m, fields...)
}

func xRows() []Row { return []Row{{"x": 0.0}, {"x": 1.0}, {"x": 2.5}} }

func runC07(c *Ctx) {
	maxSegs := 4
	if c.Thorough {
		maxSegs = 6
	}
	ydef := Field{Name: "y", Type: "string", OpType: "categorical"}
	// 1. Numeric ensembles: every kind vector up to 2 (3) segments; one kind for all beyond.
	for n := 1; n <= maxSegs; n++ {
		fields := append(predFields(n), "x")
		mkDoc := func(method string, kinds []int, out []OutF, tgts []Tgt) *Doc {
			m := &Mdl{Kind: "mining", Func: "regression", Method: method, Out: out, Tgts: tgts, MFs: active(fields...)}
			for i, k := range kinds {
				m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: segPred(i), Model: numSeg(k, i, fields)})
			}
			return &Doc{Fields: dbl(fields...), Model: m}
		}
		for _, method := range []string{"sum", "average", "selectFirst", "modelChain"} {
			do := func(kinds []int) {
				c.Case(fmt.Sprintf("numeric %s %v", method, kinds), func() {
					c.Bound("segments, all predicate vectors", n)
					rows := cross(rows3p(n), xRows())
					c.Check(mkDoc(method, kinds, []OutF{{Name: "out", Feature: ""}}, nil), rows...)
					if n <= 3 {
						c.Check(mkDoc(method, kinds, []OutF{{Name: "out"}, {Name: "score"}}, []Tgt{{Field: "y2", Factor: fp(0.5)}}), rows...)
					}
				})
			}
			full := 2
			if c.Thorough {
				full = 3
			}
			if n <= full {
				vectors(n, 8, do)
			} else {
				for k := 0; k < 8; k++ {
					kinds := make([]int, n)
					for i := range kinds {
						kinds[i] = k
					}
					do(kinds)
					for i := range kinds {
						kinds[i] = (k + i) % 8
					}
					do(append([]int{}, kinds...))
				}
			}
		}
		// Targets.
		if n > 3 {
			continue
		}
		nums := []*float64{nil, fp(0), fp(1), fp(-2), fp(0.5), fp(3)}
		for _, method := range []string{"sum", "average"} {
			for _, fa := range nums {
				for _, of := range nums {
					for _, cast := range []string{"", "round", "ceiling", "floor"} {
						c.Case(fmt.Sprintf("target %d %s %s %s %s", n, method, optnum(fa), optnum(of), cast), func() {
							rows := cross(rows3p(n), xRows())
							kinds := []int{0, 1, 2}[:n]
							t := Tgt{Field: "y", Factor: fa, Offset: of, Cast: cast}
							c.Check(mkDoc(method, kinds, nil, []Tgt{t}), rows...)
							c.Check(mkDoc(method, kinds, []OutF{{Name: "out"}}, []Tgt{t}), rows...)
							c.Check(mkDoc(method, kinds, []OutF{{Name: "y"}, {Name: "z"}}, []Tgt{t}), rows...)
							c.Check(mkDoc(method, kinds, []OutF{{Name: "z"}}, []Tgt{t, {Field: "z", Factor: fp(10)}, {Field: "w", Offset: fp(100)}}), rows...)
						})
					}
				}
			}
		}
	}
	// Scores far beyond the integers, cast.
	for _, method := range []string{"sum", "average"} {
		for _, cast := range []string{"", "round", "ceiling", "floor"} {
			c.Case(fmt.Sprintf("huge %s %s", method, cast), func() {
				scores := []string{"1e20", "-1e20", "9223372036854775808", "-9223372036854775809", "4294967296.5", "-2147483648.5", "9007199254740993", "1e300", "0.49999999999999994", "-0.5", "2.5", "-1.5"}
				for _, a := range scores {
					for _, b := range []string{"0", "1", "-1e19"} {
						m := &Mdl{Kind: "mining", Func: "regression", Method: method, Tgts: []Tgt{{Field: "y", Cast: cast}}, MFs: active("x"), Segs: []*Seg{
							{ID: "1", Pred: pTrue(), Model: withMFs(constTree(a), "x")}, {ID: "2", Pred: pS("x", "greaterThan", "0"), Model: withMFs(constTree(b), "x")}}}
						c.Check(&Doc{Fields: dbl("x"), Model: m}, Row{"x": 0.0}, Row{"x": 1.0})
					}
				}
			})
		}
	}
	// 2. Class ensembles.
	for n := 1; n <= min(maxSegs, 4); n++ {
		fields := append(predFields(n), "x")
		outSets := [][]OutF{
			{{"probability(a)", "probability", "a"}, {"probability(b)", "probability", "b"}},
			{{"pb", "probability", "b"}, {"pa", "probability", "a"}},
			{{"a", "probability", "a"}, {"probability(c)", "probability", "c"}},
			{{"only", "probability", "b"}},
		}
		for _, method := range []string{"sum", "average", "selectFirst", "modelChain"} {
			do := func(kinds []int) {
				c.Case(fmt.Sprintf("class %s %v", method, kinds), func() {
					for _, os := range outSets {
						m := &Mdl{Kind: "mining", Func: "classification", Method: method, Out: os, MFs: append(active(fields...), MF{Name: "y", Usage: "target"})}
						for i, k := range kinds {
							m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: segPred(i), Model: clsSeg(k, i, fields)})
						}
						c.Check(&Doc{Fields: append(dbl(fields...), ydef), Model: m}, cross(rows3p(n), xRows())...)
					}
				})
			}
			if n <= 3 {
				vectors(n, 6, do)
			} else {
				do([]int{0, 1, 2, 3})
				do([]int{3, 2, 1, 0})
				do([]int{1, 1, 1, 1})
				do([]int{5, 0, 2, 5})
			}
		}
	}
	// Every way to declare up to four outputs for up to three classes: several for one class, none for another.
	for _, method := range []string{"sum", "average", "selectFirst", "modelChain"} {
		for no := 1; no <= 4; no++ {
			vectors(no, 3, func(v []int) {
				c.Case(fmt.Sprintf("class %s outputs %v", method, v), func() {
					for kind := 0; kind < 4; kind++ {
						fields := append(predFields(2), "x")
						m := &Mdl{Kind: "mining", Func: "classification", Method: method, MFs: append(active(fields...), MF{Name: "y", Usage: "target"})}
						for i, k := range v {
							m.Out = append(m.Out, OutF{fmt.Sprint("o", i), "probability", []string{"a", "b", "c"}[k]})
						}
						for i := 0; i < 2; i++ {
							m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: segPred(i), Model: clsSeg((kind+i)%4, i, fields)})
						}
						c.Check(&Doc{Fields: append(dbl(fields...), ydef), Model: m}, cross(rows3p(2), xRows())...)
					}
				})
			})
		}
	}
	// 3. Chains: outputs feed predictors, derived fields, predicates and lookups of later segments.
	for consumer := 0; consumer < 6; consumer++ {
		for producer := 0; producer < 4; producer++ {
			for extra := 0; extra < 3; extra++ {
				c.Case(fmt.Sprintf("chain %d %d %d", producer, consumer, extra), func() {
					fields := []string{"x", "p0", "p1", "o"}
					var pm *Mdl
					switch producer {
					case 0:
						pm = &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Intercept: 0.5, Nums: []NumPred{{"x", 2, 0}}}}, Out: []OutF{{Name: "o"}}}
					case 1:
						pm = &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "o"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: numSeg(1, 0, fields)}, {ID: "2", Pred: pTrue(), Model: numSeg(2, 1, fields)}}}
					case 2:
						pm = &Mdl{Kind: "reg", Func: "classification", Norm: "logit", Tables: []Table{{Category: "1", Nums: []NumPred{{"x", 2, 0}}}, {Category: "0"}}, Out: []OutF{{"o", "probability", "1"}, {"oo", "probability", "0"}}}
					case 3:
						pm = &Mdl{Kind: "mining", Func: "regression", Method: "modelChain", Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: numSeg(0, 0, fields)},
							{ID: "2", Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Nums: []NumPred{{"score", 2, 0}, {"x", 1, 0}}}}, Out: []OutF{{Name: "o"}}}}}}
					}
					var cm *Mdl
					switch consumer {
					case 0:
						cm = &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Intercept: 1, Nums: []NumPred{{"o", 3, 2}, {"x", 1, 0}}}}, Out: []OutF{{Name: "f"}}}
					case 1:
						cm = &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "0", Pred: pTrue(), Kids: []*Node{{ID: "1", Score: "1", Pred: pS("o", "greaterThan", "1")}, {ID: "2", Score: "2", Pred: pS("o", "isMissing", "")}}}}
					case 2:
						cm = &Mdl{Kind: "reg", Func: "regression", LT: []DF{dfC("z", eA("*", eF("o"), eK("10")))}, Tables: []Table{{Nums: []NumPred{{"z", 1, 0}}}}, Out: []OutF{{Name: "f"}}}
					case 3:
						cm = &Mdl{Kind: "mining", Func: "regression", Method: "selectFirst", Segs: []*Seg{{ID: "1", Pred: pS("o", "lessThan", "1"), Model: constTree("-1")}, {ID: "2", Pred: pTrue(), Model: constTree("-2")}}}
					case 4:
						cm = &Mdl{Kind: "mining", Func: "regression", Method: "sum", LT: []DF{dfC("z", eA("+", eF("o"), eF("x")))}, Out: []OutF{{Name: "f"}}, Segs: []*Seg{{ID: "1", Pred: pS("z", "greaterThan", "2"), Model: constTree("4")}, {ID: "2", Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Nums: []NumPred{{"z", 1, 0}}}}, Out: []OutF{{Name: "q"}}}}}}
					case 5:
						cm = &Mdl{Kind: "tree", Func: "regression", LT: []DF{dfC("z", &Expr{Kind: "map", Cols: [][2]string{{"k", "o"}}, OutCol: "v", Rows: [][]string{{"2.5", "9"}, {"5.5", "8"}}, Default: sp("1")})},
							Root: &Node{ID: "r", Score: "0", Pred: pTrue(), Kids: []*Node{{ID: "1", Score: "1", Pred: pS("z", "greaterThan", "8.5")}, {ID: "2", Score: "2", Pred: pS("z", "greaterThan", "7")}}}}
					}
					m := &Mdl{Kind: "mining", Func: "regression", Method: "modelChain"}
					m.Segs = []*Seg{{ID: "1", Pred: segPred(0), Model: pm}}
					if extra >= 1 {
						m.Segs = append(m.Segs, &Seg{ID: "x", Pred: segPred(1), Model: numSeg(1, 7, nil)})
					}
					if extra == 2 {
						m.Segs = append(m.Segs, &Seg{ID: "c", Pred: pS("o", "greaterThan", "0.75"), Model: cm})
					} else {
						m.Segs = append(m.Segs, &Seg{ID: "c", Pred: pTrue(), Model: cm})
					}
					withMFs(m, fields...)
					rows := cross(rows3p(2), []Row{{"x": 0.0}, {"x": 0.25}, {"x": 1.0}, {"x": -2.0}, {"x": 2.5}, {"x": 1.0, "o": 7.0}})
					c.Check(&Doc{Fields: dbl("x", "p0", "p1", "o", "score"), Model: m}, rows...)
				})
			}
		}
	}
	// Long chains: each adds one to what the previous one gave; any one of them may be switched off.
	for _, n := range []int{3, 10, 40} {
		c.Case(fmt.Sprintf("long chain %d", n), func() {
			m := &Mdl{Kind: "mining", Func: "regression", Method: "modelChain"}
			for i := 0; i < n; i++ {
				m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: pS("off", "notEqual", num(float64(i))), Model: &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Intercept: 1, Nums: []NumPred{{"v", 2, 0}, {"w", float64(i % 3), 0}}}}, Out: []OutF{{Name: []string{"v", "w"}[i%2]}}}})
			}
			withMFs(m, "v", "w", "off")
			var rows []Row
			for i := -1; i <= n; i++ {
				rows = append(rows, Row{"v": 0.5, "w": 0.25, "off": float64(i)}, Row{"v": 0.5, "off": float64(i)})
			}
			c.Check(&Doc{Fields: dbl("v", "w", "off"), Model: m}, rows...)
		})
	}
	// Chains whose outputs have nearly equal names, some of them also supplied by the row.
	for _, names := range [][]string{{"x1", "x2"}, {"x", "x3"}, {"x1", "X1"}, {"X1", "x1"}, {"x", "X"}, {"x ", "x"}, {"x01", "x1"}, {"é", "É"}, {"e", "é"}, {"x-1", "x_1"}, {"score", "Score"}} {
		for n := 2; n <= 4; n++ {
			c.Case(fmt.Sprintf("chain of %d writing %q", n, names), func() {
				d := chainDoc(names, n)
				rows := []Row{}
				for mask := 0; mask < 4; mask++ {
					r := Row{"x": 1.0, "x1": 0.5, "x2": -0.25}
					for i, a := range names {
						delete(r, a)
						if mask>>i&1 == 1 {
							r[a] = 0.75 - float64(i)
						}
					}
					rows = append(rows, r)
				}
				c.Check(d, rows...)
			})
		}
	}
	// 4. Many segments, every position of one and two deviating ones.
	sizes := []int{9, 33, 66, 130, 300}
	if c.mode == nil {
		sizes = append(sizes, 1100)
	}
	if c.Thorough {
		sizes = append(sizes, 17, 64, 65, 128, 129, 256, 257)
	}
	for _, n := range sizes {
		for _, method := range []string{"sum", "average", "selectFirst", "modelChain"} {
			for base := 0; base < 3; base++ {
				for _, fn := range []string{"regression", "classification"} {
					c.Case(fmt.Sprintf("%d segments %s %s base %d", n, method, fn, base), func() {
						fields := append(predFields(n), "x")
						m := &Mdl{Kind: "mining", Func: fn, Method: method, Out: []OutF{{"probability(a)", "probability", "a"}, {"pb", "probability", "b"}}}
						if fn == "regression" {
							m.Out = []OutF{{Name: "out"}}
						}
						for i := 0; i < n; i++ {
							var s *Mdl
							if fn == "regression" {
								s = numSeg(i%3, i, nil)
							} else {
								s = clsSeg(0, i, nil)
							}
							s.MFs = append(s.MFs, MF{Name: "y", Usage: "target"})
							m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: segPred(i), Model: s})
						}
						m.MFs = active(fields...)
						var rows []Row
						mk := func(a, va, b, vb int) {
							r := Row{"x": 1.5}
							for i := 0; i < n; i++ {
								v := base
								if i == a {
									v = va
								} else if i == b {
									v = vb
								}
								if v < 2 {
									r[fmt.Sprint("p", i)] = float64(v)
								}
							}
							rows = append(rows, r)
						}
						mk(-1, 0, -1, 0)
						for _, a := range positions(n) {
							if n > 500 && a < 250 && a > 0 {
								continue
							}
							for v := 0; v < 3; v++ {
								if v == base {
									continue
								}
								mk(a, v, -1, 0)
								if n > 500 {
									continue
								}
								for b := 0; b < n; b += 1 + n/4 {
									if b != a {
										mk(a, v, b, 3-base-v)
									}
								}
							}
						}
						c.Bound("segments, swept", n)
						c.Check(&Doc{Fields: append(dbl(fields...), ydef), Model: m}, rows...)
					})
				}
			}
		}
	}
	// Scores without bound or no numbers at all are combined as such.
	huge := []string{"0", "1.5", "-3", "1e308", "-1e308", "INF", "-INF", "NAN"}
	for n := 1; n <= 3; n++ {
		vectors(n, len(huge), func(v []int) {
			for _, method := range []string{"sum", "average"} {
				for kind := 0; kind < 3; kind++ {
					c.Case(fmt.Sprintf("huge scores %s %v %d", method, v, kind), func() {
						m := &Mdl{Kind: "mining", Func: "regression", Method: method, Out: []OutF{{Name: "out"}}, MFs: active("x", "w")}
						if kind == 1 {
							m.Tgts = []Tgt{{Field: "out", Factor: fp(0.5), Offset: fp(1)}}
						}
						for i, k := range v {
							sm := &Mdl{Kind: "reg", Func: "regression", Out: []OutF{{Name: "r"}}, MFs: active("x", "w"), Tables: []Table{{Nums: []NumPred{{"z", 1, 0}}}}}
							switch huge[k] {
							case "INF": // 1/0
								sm.LT = []DF{dfC("z", eA("/", eK("1"), eF("x")))}
							case "-INF":
								sm.LT = []DF{dfC("z", eA("/", eK("-1"), eF("x")))}
							case "NAN":
								sm.LT = []DF{dfC("z", eA("/", eF("x"), eF("x")))}
							default:
								sm.LT = []DF{dfC("z", eK(huge[k]))}
							}
							if kind == 2 && huge[k] == "INF" { // by the link
								sm.Norm, sm.LT = "exp", []DF{dfC("z", eA("-", eK("1000"), eF("x")))}
							}
							m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i), Pred: []*Pred{pTrue(), pS("w", "greaterThan", "0")}[i%2], Model: sm})
						}
						c.Check(&Doc{Fields: dbl("x", "w"), Model: m}, Row{"x": 0.0, "w": 1.0}, Row{"x": 2.0, "w": 1.0}, Row{"x": 0.0}, Row{"x": 1e-310, "w": 1.0}, Row{"x": math.NaN(), "w": 1.0}, Row{"x": math.Inf(1), "w": 1.0}, Row{"x": math.Inf(-1), "w": 0.0})
					})
				}
			}
		})
	}
	// 5. Nesting: ensembles of ensembles, every pair (triple) of methods, targets at every level.
	methods := []string{"sum", "average", "selectFirst", "modelChain"}
	depth := 2
	if c.Thorough {
		depth = 4
	}
	for d := 2; d <= depth+1; d++ {
		vectors(d, 4, func(v []int) {
			for tg := 0; tg < 2; tg++ {
				c.Case(fmt.Sprintf("nested %v %d", v, tg), func() {
					fields := append(predFields(4), "x")
					id := 0
					var rec func(l int) *Mdl
					rec = func(l int) *Mdl {
						if l == d {
							id++
							return numSeg(id%3, id, fields)
						}
						m := &Mdl{Kind: "mining", Func: "regression", Method: methods[v[l]], Out: []OutF{{Name: "score"}}, MFs: active(fields...)}
						if tg == 1 && v[l] < 2 {
							m.Tgts = []Tgt{{Field: "score", Factor: fp(0.5 + float64(l)), Offset: fp(float64(l) - 0.5)}}
						}
						m.Segs = []*Seg{{ID: "1", Pred: segPred(l % 4), Model: rec(l + 1)}, {ID: "2", Pred: segPred((l + 1) % 4), Model: rec(l + 1)}}
						return m
					}
					c.Bound("nesting of ensembles", d)
					c.Check(&Doc{Fields: dbl(fields...), Model: rec(0)}, cross(rows3p(4), xRows())...)
				})
			}
		})
	}
	// Identifiers are irrelevant: absent, equal, in any order.
	for _, ids := range [][]string{{"", "", ""}, {"1", "1", "1"}, {"3", "2", "1"}, {"x", "", "x"}} {
		for _, method := range methods {
			c.Case(fmt.Sprintf("ids %v %s", ids, method), func() {
				fields := append(predFields(3), "x")
				m := &Mdl{Kind: "mining", Func: "regression", Method: method, Out: []OutF{{Name: "out"}}, MFs: active(fields...)}
				for i, id := range ids {
					m.Segs = append(m.Segs, &Seg{ID: id, Pred: segPred(i), Model: numSeg(i, i, fields)})
				}
				c.Check(&Doc{Fields: dbl(fields...), Model: m}, cross(rows3p(3), xRows())...)
			})
		}
	}
}
