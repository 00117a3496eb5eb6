package main

import (
	"fmt"
	"math"
	"strconv"
)

func init() {
	register(&prop{id: "C08", level: "model_checking",
		what: "one state per document (expression tree x position of the derived field x consumer); one transition per library call; one validated trace per row over an alphabet with missing operands, compared with an independent evaluation of the expression. Every expression over the supported functions up to the node bound is visited, and every lookup table over the stated alphabets; deep expressions, long dictionaries and long tables are swept.",
		assume: []string{"unspecified: non-numeric operands of arithmetic, sum of nothing but missing values, conditions that are not boolean, lookups of a missing value with only a default value, lookups with contradicting rows",
			"floating-point results are compared up to rounding"},
		run: runC08})
}

var exprLeaves = []*Expr{eF("a"), eF("b"), eF("m"), eK("2"), eK("-0.5")}

var exprCache = map[int][]*Expr{}

// exprs lists every expression of exactly n nodes.
func exprs(n int) []*Expr {
	if e, ok := exprCache[n]; ok {
		return e
	}
	var out []*Expr
	if n == 1 {
		out = exprLeaves
	} else {
		for _, fn := range []string{"isMissing", "isNotMissing", "sum"} {
			for _, x := range exprs(n - 1) {
				out = append(out, eA(fn, x))
			}
		}
		for i := 1; i < n-1; i++ {
			for _, fn := range []string{"+", "-", "*", "/", "sum"} {
				for _, x := range exprs(i) {
					for _, y := range exprs(n - 1 - i) {
						out = append(out, eA(fn, x, y))
					}
				}
			}
			for j := 1; i+j < n-1; j++ {
				for _, fn := range []string{"if", "sum"} {
					for _, x := range exprs(i) {
						if fn == "if" && (x.Kind != "apply" || x.Name != "isMissing" && x.Name != "isNotMissing" && x.Name != "if") {
							continue
						}
						for _, y := range exprs(j) {
							for _, z := range exprs(n - 1 - i - j) {
								out = append(out, eA(fn, x, y, z))
							}
						}
					}
				}
			}
		}
	}
	exprCache[n] = out
	return out
}

func isBoolean(e *Expr) bool {
	if e.Kind != "apply" {
		return false
	}
	if e.Name == "if" {
		return isBoolean(e.Args[1]) || isBoolean(e.Args[2])
	}
	return e.Name == "isMissing" || e.Name == "isNotMissing"
}

// reader is a model whose prediction reveals the value of field z.
func reader(boolean bool) *Mdl {
	if boolean {
		return &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "0", Pred: pTrue(), Kids: []*Node{
			{ID: "1", Score: "1", Pred: pS("z", "equal", "true")}, {ID: "2", Score: "2", Pred: pS("z", "equal", "false")}, {ID: "3", Score: "3", Pred: pS("z", "isMissing", "")}}}}
	}
	return &Mdl{Kind: "reg", Func: "regression", Tables: []Table{{Nums: []NumPred{{"z", 1, 0}}}}, Out: []OutF{{Name: "out"}}}
}

var derPlaces = []string{"dictionary", "local", "segment", "dictionary-in-segment", "ensemble", "deep", "segment-predicate"}

// deriveDoc declares dfs (the last one is z) at a place and reads z.
func deriveDoc(dfs []DF, boolean bool, place string, fields ...string) *Doc {
	d := &Doc{Fields: dbl(fields...)}
	rd := reader(boolean)
	wrap := func(method string, m *Mdl) *Mdl {
		return &Mdl{Kind: "mining", Func: "regression", Method: method, Out: []OutF{{Name: "total"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: m}}}
	}
	switch place {
	case "dictionary":
		d.TD, d.Model = dfs, rd
	case "local":
		rd.LT, d.Model = dfs, rd
	case "segment":
		rd.LT, d.Model = dfs, wrap("sum", rd)
	case "dictionary-in-segment":
		d.TD, d.Model = dfs, wrap("modelChain", rd)
	case "ensemble":
		d.Model = wrap("selectFirst", rd)
		d.Model.LT = dfs
	case "deep":
		d.Model = wrap("average", wrap("sum", rd))
		d.Model.LT = dfs
	case "segment-predicate":
		d.Model = wrap("sum", constTree("1"))
		d.Model.LT = dfs
		s := d.Model.Segs
		d.Model.Segs = nil
		for i, lit := range []string{"-1", "0", "1", "2.5"} {
			p := pS("z", "greaterThan", lit)
			if boolean {
				p = pS("z", "equal", []string{"true", "false"}[i%2])
			}
			d.Model.Segs = append(d.Model.Segs, &Seg{ID: fmt.Sprint(i), Pred: p, Model: constTree(num(float64(int(1) << i)))})
		}
		d.Model.Segs = append(d.Model.Segs, &Seg{ID: "m", Pred: pS("z", "isMissing", ""), Model: constTree("100")}, s[0])
	}
	withMFs(d.Model, fields...)
	return d
}

func zField(e *Expr) DF {
	if isBoolean(e) {
		return DF{Name: "z", OpType: "categorical", DataType: "boolean", Expr: e}
	}
	return dfC("z", e)
}

func runC08(c *Ctx) {
	fields := []string{"a", "b", "m"}
	rows := []Row{{"a": 1.5, "b": -2.0}, {"a": 0.0, "b": 3.0, "m": 4.0}, {"a": 2.0}, {"b": 0.0, "m": nil}, {}, {"a": "2.5", "b": int64(4)}}
	maxN := 5
	if c.Thorough {
		maxN = 6
	}
	for n := 1; n <= maxN; n++ {
		for i, e := range exprs(n) {
			for pi, pl := range derPlaces {
				if n >= 5 && i%len(derPlaces) != pi {
					continue
				}
				c.Case(fmt.Sprintf("expr %d nodes #%d %s", n, i, pl), func() {
					c.Bound("expression nodes, all expressions", n)
					c.Check(deriveDoc([]DF{zField(e)}, isBoolean(e), pl, fields...), rows...)
				})
			}
		}
	}
	// mapMissingTo and defaultValue on every node of every small expression.
	maxD := 3
	if c.Thorough {
		maxD = 4
	}
	for n := 1; n <= maxD; n++ {
		for i, e := range exprs(n) {
			var nodes int
			var count func(*Expr)
			count = func(x *Expr) {
				if x.Kind != "const" {
					nodes++
				}
				for _, a := range x.Args {
					count(a)
				}
			}
			count(e)
			vectors(nodes, 4, func(v []int) {
				c.Case(fmt.Sprintf("defaults %d #%d %v", n, i, v), func() {
					k := 0
					var cp func(*Expr) *Expr
					cp = func(x *Expr) *Expr {
						y := *x
						y.Args = nil
						if x.Kind != "const" {
							o := v[k]
							k++
							lit := num(float64(k) * 3)
							if o&1 != 0 {
								y.MapMissing = sp(lit)
							}
							if o&2 != 0 && x.Kind == "apply" {
								y.Default = sp("-" + lit)
							}
						}
						for _, a := range x.Args {
							y.Args = append(y.Args, cp(a))
						}
						return &y
					}
					q := cp(e)
					for _, pl := range []string{"local", "dictionary-in-segment"} {
						c.Check(deriveDoc([]DF{zField(q)}, isBoolean(q), pl, fields...), rows...)
					}
				})
			})
		}
	}
	// Arithmetic is that of real numbers, whatever the operands are carried by.
	carriers := []func(f float64) interface{}{
		func(f float64) interface{} { return f }, func(f float64) interface{} { return float32(f) }, func(f float64) interface{} { return int(f) }, func(f float64) interface{} { return int64(f) }, func(f float64) interface{} { return int32(f) },
		func(f float64) interface{} { return int8(f) }, func(f float64) interface{} { return uint8(math.Abs(f)) }, func(f float64) interface{} { return uint64(math.Abs(f)) }, func(f float64) interface{} { return num(f) },
	}
	for ci, c1 := range carriers {
		for cj, c2 := range carriers {
			for _, op := range []string{"+", "-", "*", "/", "sum"} {
				for pi, pl := range derPlaces {
					c.Case(fmt.Sprintf("carriers %d %d %s %s", ci, cj, op, pl), func() {
						var rs []Row
						for _, a := range []float64{7, -7, 1, 0, 100, 127} {
							for _, b := range []float64{2, -2, 3, 0, 100} {
								rs = append(rs, Row{"a": c1(a), "b": c2(b)})
							}
						}
						types := []string{"integer", "double"}
						d := deriveDoc([]DF{dfC("z", eA(op, eF("a"), eF("b")))}, false, pl)
						d.Fields = append(d.Fields, Field{Name: "a", Type: types[pi%2]}, Field{Name: "b", Type: types[pi/2%2]})
						c.Check(d, rs...)
					})
				}
			}
		}
	}
	// if: every kind of condition, branches not taken are irrelevant.
	conds := []*Expr{eA("isMissing", eF("m")), eA("isNotMissing", eF("m")), eF("t"), eA("if", eA("isMissing", eF("a")), eF("t"), eA("isNotMissing", eF("b"))), eA("isMissing", eA("+", eF("a"), eF("m"))), eA("isMissing", eA("/", eF("a"), eK("0")))}
	branches := []*Expr{eF("a"), eF("m"), eK("7"), eA("*", eF("a"), eF("b")), eA("if", eA("isMissing", eF("a")), eK("1"), eF("b")), eA("sum", eF("a"), eF("b"), eK("1"))}
	for ci, cd := range conds {
		for xi, x := range branches {
			for yi, y := range branches {
				for _, pl := range derPlaces {
					c.Case(fmt.Sprintf("if %d %d %d %s", ci, xi, yi, pl), func() {
						d := deriveDoc([]DF{dfC("z", eA("if", cd, x, y))}, false, pl, fields...)
						d.Fields = append(d.Fields, Field{Name: "t", Type: "boolean"})
						var rs []Row
						for _, t := range []interface{}{true, false, "true", "false", nil} {
							for _, r := range rows {
								q := r.clone()
								q["t"] = t
								rs = append(rs, q)
							}
						}
						c.Check(d, rs...)
					})
				}
			}
		}
	}
	// A present value is not missing, whatever it is.
	odd := []interface{}{"", " ", "0", "false", "nil", "null", "NaN", "NA", "x", 0.0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1.5, int64(0), false, true, float32(0), uint8(0), nil}
	for oi, v := range odd {
		for _, pl := range derPlaces {
			for ti, typ := range []string{"string", "double", "boolean", "integer"} {
				for k := 0; k < 6; k++ {
					c.Case(fmt.Sprintf("presence %d %s %s %d", oi, pl, typ, k), func() {
						missing, present := eA("isMissing", eF("s")), eA("isNotMissing", eF("s"))
						if ti == 0 && k >= 2 { // the field may also come from a lookup or be passed on
							missing, present = eA("isMissing", eF("s2")), eA("isNotMissing", eF("s2"))
						}
						z := []*Expr{eA("if", missing, eK("1"), eK("2")), eA("if", present, eK("1"), eK("2")), eA("if", missing, eK("0"), eA("if", present, eK("2.25"), eK("-3"))), eA("if", eA("isMissing", eA("if", missing, eF("m"), eK("1"))), eK("4"), eK("5")),
							eA("sum", eA("if", missing, eK("1"), eK("0")), eA("if", present, eK("8"), eK("16"))), eA("if", eA("isNotMissing", missing), eK("1"), eK("2"))}[k]
						dfs := []DF{dfC("z", z)}
						if ti == 0 && k >= 2 {
							dfs = []DF{{Name: "s2", OpType: "categorical", DataType: "string", Expr: eF("s")}, dfs[0]}
						}
						d := deriveDoc(dfs, false, pl, "m")
						d.Fields = append(d.Fields, Field{Name: "s", Type: typ})
						c.Check(d, Row{"s": v}, Row{})
					})
				}
			}
		}
	}
	// The type a derived field is declared with does not change the number.
	for _, e := range []*Expr{eF("a"), eK("0.1"), eA("*", eF("a"), eK("0.1")), eA("/", eF("a"), eF("b")), eA("sum", eF("a"), eK("16777217"), eF("b")), eA("-", eF("a"), eK("123456789.123"))} {
		for _, typ := range []string{"double", "float"} {
			for _, op := range []string{"continuous", "ordinal", "categorical"} {
				for _, pl := range derPlaces {
					c.Case(fmt.Sprintf("declared %v %s %s %s", e, typ, op, pl), func() {
						d := deriveDoc([]DF{{Name: "z", OpType: op, DataType: typ, Expr: e}}, false, pl, "a", "b")
						c.Check(d, Row{"a": 0.1, "b": 3.0}, Row{"a": 1e10 + 0.25, "b": 7.0}, Row{"a": -1.0 / 3, "b": 0.001}, Row{"b": 1.0}, Row{"a": 3.0, "b": -2.0}, Row{"a": 1e-300, "b": 1.0}, Row{"a": 1e300, "b": 1.0})
					})
				}
			}
		}
	}
	// Lookups: columns x rows x what the table lists x default x mapMissing x input.
	keys := []string{"a", "b", "", "1", "1.5", "é", "<&>", "a b", "true", "A"}
	inputs := []interface{}{"a", "b", "", "1", "1.5", "é", "<&>", "a b", "A", "z", "aa", int64(1), 1.0, 1.5, true, nil}
	for nr := 0; nr <= 3; nr++ {
		vectors(nr, len(keys), func(v []int) {
			for i := range v {
				for j := 0; j < i; j++ {
					if v[i] == v[j] {
						return
					}
				}
			}
			for opt := 0; opt < 4; opt++ {
				c.Case(fmt.Sprintf("lookup %v %d", v, opt), func() {
					e := &Expr{Kind: "map", Cols: [][2]string{{"k", "s"}}, OutCol: "v"}
					for i, k := range v {
						e.Rows = append(e.Rows, []string{keys[k], num(float64(i)*10 + 2)})
					}
					if opt&1 != 0 {
						e.Default = sp("-7")
					}
					if opt&2 != 0 {
						e.MapMissing = sp("-8")
					}
					var rs []Row
					for _, in := range inputs {
						rs = append(rs, Row{"s": in})
					}
					rs = append(rs, Row{})
					for pi, pl := range derPlaces {
						if nr == 3 && (v[0]+v[1]+v[2])%len(derPlaces) != pi {
							continue
						}
						d := deriveDoc([]DF{dfC("z", e)}, false, pl, "x")
						d.Fields = append(d.Fields, Field{Name: "s", Type: "string"})
						c.Check(d, rs...)
					}
				})
			}
		})
	}
	for nc := 2; nc <= 3; nc++ {
		for nr := 0; nr <= 3; nr++ {
			al := []string{"a", ""}
			per := 1
			for i := 0; i < nc; i++ {
				per *= len(al)
			}
			vectors(nr, per, func(v []int) {
				for opt := 0; opt < 4; opt++ {
					c.Case(fmt.Sprintf("lookup %d columns %v %d", nc, v, opt), func() {
						e := &Expr{Kind: "map", OutCol: "v"}
						names := []string{"s", "t", "u"}
						for i := 0; i < nc; i++ {
							e.Cols = append(e.Cols, [2]string{fmt.Sprint("k", i), names[i]})
						}
						for i, k := range v {
							var r []string
							for j := 0; j < nc; j++ {
								r = append(r, al[k>>j&1])
							}
							e.Rows = append(e.Rows, append(r, num(float64(i)*10+2)))
						}
						if opt&1 != 0 {
							e.Default = sp("-7")
						}
						if opt&2 != 0 {
							e.MapMissing = sp("-8")
						}
						var rs []Row
						vectors(nc, 4, func(w []int) {
							r := Row{}
							for j, k := range w {
								if k < 3 {
									r[names[j]] = []interface{}{"a", "", "z"}[k]
								}
							}
							rs = append(rs, r)
						})
						for _, pl := range []string{"local", "dictionary-in-segment"} {
							d := deriveDoc([]DF{dfC("z", e)}, false, pl, "x")
							for _, n := range names {
								d.Fields = append(d.Fields, Field{Name: n, Type: "string"})
							}
							c.Check(d, rs...)
						}
					})
				}
			})
		}
	}
	// Lookups into strings: empty cells, blanks, markup, texts of numbers and booleans are outputs like any other.
	outs := []string{"A", "", " ", "<&>", "0", "false", "é", "none", "a"}
	for i := range outs {
		for j := range outs {
			for opt := 0; opt < 8; opt++ {
				c.Case(fmt.Sprintf("string lookup %d %d %d", i, j, opt), func() {
					e := &Expr{Kind: "map", Cols: [][2]string{{"k", "s"}}, OutCol: "v", Rows: [][]string{{"a", outs[i]}, {"b", outs[j]}}}
					if opt&1 != 0 {
						e.Default = sp("none")
					}
					if opt&2 != 0 {
						e.MapMissing = sp("gone")
					}
					if opt&4 != 0 {
						e.Default, e.DataType = sp(""), "string"
					}
					rd := &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "0", Pred: pTrue()}}
					for k, o := range append([]string{"gone", "z", "b"}, outs...) {
						rd.Root.Kids = append(rd.Root.Kids, &Node{ID: fmt.Sprint("n", k), Score: num(float64(k + 1)), Pred: pS("z", "equal", o)})
					}
					rd.Root.Kids = append(rd.Root.Kids, &Node{ID: "m", Score: "-1", Pred: pS("z", "isMissing", "")})
					d := &Doc{Fields: []Field{{Name: "s", Type: "string"}}, Model: withMFs(rd, "s"), TD: []DF{{Name: "z", OpType: "categorical", DataType: "string", Expr: e}}}
					c.Check(d, Row{"s": "a"}, Row{"s": "b"}, Row{"s": "z"}, Row{"s": ""}, Row{"s": nil}, Row{})
				})
			}
		}
	}
	// Lookups of a derived value, arithmetic on a lookup, lookups giving strings and booleans to predicates.
	for _, pl := range derPlaces {
		c.Case("lookup chain "+pl, func() {
			tab := func(col, f string, out ...string) *Expr {
				e := &Expr{Kind: "map", Cols: [][2]string{{col, f}}, OutCol: "out"}
				for i := 0; i+1 < len(out); i += 2 {
					e.Rows = append(e.Rows, []string{out[i], out[i+1]})
				}
				return e
			}
			dfs := []DF{{Name: "g", OpType: "categorical", DataType: "string", Expr: tab("in", "s", "a", "group1", "b", "group2", "c", "group1")},
				{Name: "h", OpType: "continuous", DataType: "double", Expr: tab("g", "g", "group1", "10", "group2", "20")},
				dfC("z", eA("+", eF("h"), eA("*", eF("x"), eK("2"))))}
			d := deriveDoc(dfs, false, pl, "x")
			d.Fields = append(d.Fields, Field{Name: "s", Type: "string"})
			var rs []Row
			for _, s := range []interface{}{"a", "b", "c", nil} {
				rs = append(rs, Row{"s": s, "x": 1.5}, Row{"s": s})
			}
			c.Check(d, rs...)
		})
	}
	// Long tables: every row is found.
	sizes := []int{10, 33, 130, 300}
	if c.mode == nil {
		sizes = append(sizes, 1100)
	}
	if c.Thorough {
		sizes = append(sizes, 64, 65, 128, 129, 256, 257, 1000)
	}
	for _, n := range sizes {
		for _, pl := range derPlaces {
			for opt := 0; opt < 2; opt++ {
				c.Case(fmt.Sprintf("table of %d %s %d", n, pl, opt), func() {
					e := &Expr{Kind: "map", Cols: [][2]string{{"k", "s"}}, OutCol: "v"}
					if opt == 1 {
						e.Default = sp("-1")
					}
					var rs []Row
					for i := 0; i < n; i++ {
						e.Rows = append(e.Rows, []string{fmt.Sprint("k", i), fmt.Sprint(i * 3)})
						rs = append(rs, Row{"s": fmt.Sprint("k", i)})
					}
					rs = append(rs, Row{"s": "7"}, Row{})
					c.Bound("table rows, swept", n)
					d := deriveDoc([]DF{dfC("z", e)}, false, pl, "x")
					d.Fields = append(d.Fields, Field{Name: "s", Type: "string"})
					c.Check(d, rs...)
				})
			}
		}
	}
	// Keys that are numbers: a number is found by all of its digits, whatever shorter text stands for nearly the same.
	var nums []float64
	for _, f := range []float64{1, 0.1, 1.0 / 3, 2.5, 3.1415926535, 16777216, 33554433, 123456789, 0.001, 1000, 99999.99, 1e14} {
		g := float64(float32(f))
		nums = append(nums, f, g, math.Nextafter(f, 2e15), math.Nextafter(f, -1), float64(math.Nextafter32(float32(f), 2e15)), -f, math.Round(f*1e6)/1e6, math.Round(f))
	}
	texts := func(f float64) []string {
		var out []string
		for _, t := range []string{num(f), strconv.FormatFloat(f, 'f', -1, 32), strconv.FormatFloat(f, 'f', 6, 64), strconv.FormatFloat(f, 'f', 0, 64), strconv.FormatFloat(f, 'e', -1, 64), strconv.FormatFloat(f, 'g', 15, 64), strconv.FormatFloat(f, 'g', 16, 64), strconv.FormatFloat(f, 'f', -1, 64) + "0", "+" + strconv.FormatFloat(f, 'f', -1, 64), " " + strconv.FormatFloat(f, 'f', -1, 64)} {
			if !contains(out, t) {
				out = append(out, t)
			}
		}
		return out
	}
	for fi, f := range nums {
		for opt := 0; opt < 4; opt++ {
			for _, typ := range []string{"string", "double", "float"} {
				c.Case(fmt.Sprintf("number keys %d %d %s", fi, opt, typ), func() {
					for ti, t := range texts(f) {
						e := &Expr{Kind: "map", Cols: [][2]string{{"k", "s"}}, OutCol: "v", Default: sp("-7"), Rows: [][]string{{t, "3"}, {"other", "4"}}}
						if opt&1 != 0 {
							e.Rows = append([][]string{{"another", "5"}}, e.Rows...)
						}
						if opt&2 != 0 {
							e.Cols = append(e.Cols, [2]string{"l", "s"})
							for i, r := range e.Rows {
								e.Rows[i] = []string{r[0], r[0], r[1]}
							}
						}
						d := deriveDoc([]DF{dfC("z", e)}, false, derPlaces[(fi+ti)%len(derPlaces)], "x")
						d.Fields = append(d.Fields, Field{Name: "s", Type: typ})
						c.Check(d, Row{"s": f}, Row{"s": float64(float32(f))}, Row{"s": num(f)}, Row{"s": math.Nextafter(f, 0)}, Row{"s": math.Round(f)}, Row{"s": int64(math.Round(f))})
					}
				})
			}
		}
	}
	// Deep expressions, long sums, long chains of derived fields.
	deep := []int{5, 20, 60, 300}
	if c.mode == nil {
		deep = append(deep, 1100)
	}
	if c.Thorough {
		deep = append(deep, 100, 200)
	}
	for _, n := range deep {
		for _, pl := range derPlaces {
			for _, side := range []int{0, 1} {
				for miss := -1; miss <= n; miss += 1 + n/8 {
					c.Case(fmt.Sprintf("deep %d %s %d %d", n, pl, side, miss), func() {
						e := eF("a")
						for i := 0; i < n; i++ {
							l := eK(num(0.5 + float64(i%3)))
							if i == miss {
								l = eF("m")
							}
							op := []string{"+", "*", "-", "sum"}[i%4]
							if side == 0 {
								e = eA(op, e, l)
							} else {
								e = eA(op, l, e)
							}
							if i%5 == 4 {
								e = eA("if", eA("isMissing", eF("b")), eK("9"), e)
							}
						}
						c.Bound("expression depth, swept", n)
						c.Check(deriveDoc([]DF{dfC("z", e)}, false, pl, fields...), rows...)
					})
				}
			}
			c.Case(fmt.Sprintf("long sum %d %s", n, pl), func() {
				e := eA("sum")
				var names []string
				full := Row{}
				for i := 0; i < n; i++ {
					e.Args = append(e.Args, eF(leafName(i)))
					names = append(names, leafName(i))
					full[leafName(i)] = float64(i)*1.5 + 1
				}
				rs := []Row{full}
				for i := 0; i < n; i++ {
					r := full.clone()
					delete(r, leafName(i))
					rs = append(rs, r)
				}
				c.Check(deriveDoc([]DF{dfC("z", e)}, false, pl, names...), rs...)
				e.MapMissing = sp("-3")
				c.Check(deriveDoc([]DF{dfC("z", e)}, false, pl, names...), rs...)
			})
			c.Case(fmt.Sprintf("chain of %d fields %s", n, pl), func() {
				dfs := []DF{dfC("d0", eF("a"))}
				for i := 1; i < n; i++ {
					dfs = append(dfs, dfC(fmt.Sprint("d", i), eA([]string{"+", "-", "*"}[i%3], eF(fmt.Sprint("d", i-1)), eA("if", eA("isMissing", eF("m")), eF(fmt.Sprint("d", i/2)), eK("1.25")))))
				}
				dfs = append(dfs, dfC("z", eA("+", eF(fmt.Sprint("d", n-1)), eF("d0"))))
				c.Bound("derived fields, swept", n)
				// values grow quickly: keep them small
				c.Check(deriveDoc(dfs, false, pl, fields...), Row{"a": 0.01}, Row{"a": 0.5, "m": 1.0}, Row{}, Row{"a": nil, "m": 1.0}, Row{"a": int64(1), "m": 1.0})
			})
		}
	}
	// Scopes: dictionary, ensemble and segment fields building on each other, every subset missing.
	// Replacements declared at either level: a field that depends on them has its value where they apply.
	for opt := 0; opt < 64; opt++ {
		c.Case(fmt.Sprintf("scopes %d", opt), func() {
			d := &Doc{Fields: dbl(fields...), TD: []DF{dfC("t1", eA("+", eF("a"), eK("1"))), dfC("t2", eA("*", eF("t1"), eF("b")))}}
			rd := reader(false)
			rd.LT = []DF{dfC("s1", eA("+", eF("t2"), eF("l1"))), dfC("z", eA("-", eF("s1"), eA("if", eA("isMissing", eF("l2")), eK("100"), eF("l2"))))}
			inner := &Mdl{Kind: "mining", Func: "regression", Method: []string{"sum", "selectFirst"}[opt&1], Out: []OutF{{Name: "o"}}, Segs: []*Seg{{ID: "1", Pred: pS("l1", "notEqual", "3"), Model: rd}, {ID: "2", Pred: pTrue(), Model: constTree("1000")}}}
			if opt&2 != 0 {
				inner = &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: "oo"}}, Segs: []*Seg{{ID: "1", Pred: pS("t1", "lessThan", "50"), Model: inner}}}
			}
			inner.LT = []DF{dfC("l1", eA("sum", eF("t1"), eF("a"))), dfC("l2", eA("+", eF("m"), eF("l1")))}
			d.Model = inner
			if opt&4 != 0 {
				d.Model = &Mdl{Kind: "mining", Func: "regression", Method: "modelChain", Segs: []*Seg{{ID: "0", Pred: pTrue(), Model: numSeg(0, 0, nil)}, {ID: "1", Pred: pS("t1", "greaterThan", "-50"), Model: inner}}}
			}
			withMFs(d.Model, fields...)
			for i, l := range [][]MF{rd.MFs, inner.MFs, d.Model.MFs} {
				if opt&(8<<i) != 0 {
					l[0].Repl, l[2].Repl = sp("2.5"), sp("-4")
				}
			}
			c.Check(d, cross(cross([]Row{{"a": 1.0}, {"a": -2.5}, {}}, []Row{{"b": 2.0}, {"b": 0.0}, {}}), []Row{{"m": 4.0}, {"m": nil}, {}})...)
		})
	}
}
