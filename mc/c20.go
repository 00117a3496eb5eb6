package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/flukeish/pmml/evaluation"
)

func init() {
	register(&prop{id: "C20", level: "model_checking",
		what:   "one state per document and vector of abstract values; transitions are decode, build and score calls; one validated trace per row of representations whose result was compared bit by bit with that of the canonical representation. All representations of every value, in every position, all pairs of representations over two fields.",
		assume: []string{"values that a type holds only approximately are not decided"},
		run:    runC20})
}

type ptrText struct{ s string }

func (p *ptrText) String() string { return p.s }

type named string

func (n named) String() string { return string(n) }

// Types defined in terms of Go's own, without methods.
type (
	ownText    string
	ownBool    bool
	ownFloat32 float32
	ownFloat64 float64
	ownInt     int
	ownInt8    int8
	ownInt16   int16
	ownInt32   int32
	ownInt64   int64
	ownUint    uint
	ownUint8   uint8
	ownUint16  uint16
	ownUint32  uint32
	ownUint64  uint64
)

// texts are the representations of a string value.
func texts(s string) []interface{} {
	return []interface{}{s, s1{s}, &ptrText{s}, named(s), ownText(s), json.Number(s)}
}

func boolReps(b bool) []interface{} {
	return append([]interface{}{b, ownBool(b)}, texts(strconv.FormatBool(b))...)
}

// intReps are the representations of an integer.
func intReps(v *big.Int) []interface{} {
	var r []interface{}
	if v.IsInt64() {
		n := v.Int64()
		r = append(r, n, int(n), ownInt64(n), ownInt(n))
		if int64(int8(n)) == n {
			r = append(r, int8(n), ownInt8(n))
		}
		if int64(int16(n)) == n {
			r = append(r, int16(n), ownInt16(n))
		}
		if int64(int32(n)) == n {
			r = append(r, int32(n), ownInt32(n))
		}
	}
	if v.IsUint64() {
		n := v.Uint64()
		r = append(r, n, uint(n), ownUint64(n), ownUint(n), uintptr(n))
		if uint64(uint8(n)) == n {
			r = append(r, uint8(n), ownUint8(n))
		}
		if uint64(uint16(n)) == n {
			r = append(r, uint16(n), ownUint16(n))
		}
		if uint64(uint32(n)) == n {
			r = append(r, uint32(n), ownUint32(n))
		}
	}
	if f, acc := new(big.Float).SetInt(v).Float64(); acc == big.Exact {
		r = append(r, f, ownFloat64(f))
		if float64(float32(f)) == f {
			r = append(r, float32(f), ownFloat32(f))
		}
	}
	r = append(r, new(big.Int).Set(v))
	return append(r, texts(v.String())...)
}

func realReps(f float64) []interface{} {
	if f == math.Trunc(f) {
		b, _ := new(big.Float).SetFloat64(f).Int(nil)
		return intReps(b)
	}
	r := []interface{}{f, ownFloat64(f)}
	if float64(float32(f)) == f {
		r = append(r, float32(f), ownFloat32(f))
	}
	return append(r, texts(strconv.FormatFloat(f, 'f', -1, 64))...)
}

// canon is the representation the others are compared with.
func canon(reps []interface{}) interface{} { return reps[0] }

func typesOf(vs ...interface{}) string {
	s := ""
	for _, v := range vs {
		s += fmt.Sprintf(" %T(%v)", v, v)
	}
	return s
}

type repField struct {
	name string
	vals [][]interface{} // per abstract value, its representations
}

func runC20(c *Ctx) {
	ints := []int64{0, 1, -1, 2, 7, 12, 100, 127, 128, -128, 255, 256, 32767, 32768, 65535, 65536, 1000000, 123456789, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1 << 53}
	big1 := []int64{1<<53 + 1, 1<<62 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	reals := []float64{0.5, 2.5, -0.25, 100.125, 1000000.5, 0.1, 1.0 / 3, 0.001953125}
	var nums, smallNums [][]interface{}
	var intVals [][]interface{}
	for _, n := range ints {
		intVals = append(intVals, intReps(big.NewInt(n)))
	}
	nums = append(nums, intVals...)
	for _, f := range reals {
		nums = append(nums, realReps(f))
	}
	for _, i := range []int{0, 1, 2, 5, 16, 20, 24, 25, 29} {
		smallNums = append(smallNums, nums[i])
	}
	var bigVals [][]interface{}
	for _, n := range big1 {
		bigVals = append(bigVals, intReps(big.NewInt(n)))
	}
	// Numbers beyond the integers of Go, all of which a double represents exactly.
	huge := [][]interface{}{}
	for _, f := range []float64{1 << 62, 1 << 63, -1 << 63, 1e19, -1e19, 18446744073709549568, 1 << 64, 1e30, -1e30} {
		huge = append(huge, realReps(f))
	}
	bools := [][]interface{}{boolReps(true), boolReps(false)}
	var strs [][]interface{}
	for _, s := range []string{"a", "", "a b", "5", "1000000", "-1", "0.5", "true", "1e6", "é", "05"} {
		r := texts(s)
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && fmt.Sprint(n) == s {
			r = append(r, intReps(big.NewInt(n))...)
		} else if f, err := strconv.ParseFloat(s, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == s {
			r = append(r, f, float32(f))
		}
		if s == "true" {
			r = append(r, true)
		}
		strs = append(strs, r)
	}

	// compare scores all representations of all values.
	compare := func(name string, d *Doc, fields ...repField) {
		c.Case(name, func() {
			x := d.XML()
			c.curDetail = x
			m, err := build(x)
			c.r.Transitions++
			if err != nil {
				c.Fail(x, "refused: %v", err)
			}
			var walk func(i int, base Row, alts []repField)
			check := func(base Row, pick [][]interface{}) {
				c.r.States++
				c.CheckRow(m, d, x, base)
				want := score(m, base)
				c.r.Transitions++
				try := func(row Row) {
					c.curDetail = x + "\n" + row.String()
					got := score(m, row)
					c.r.Transitions++
					c.r.Validated++
					if !identical(got, want) {
						c.Fail(x+"\n"+row.String(), "row %v gives %v, but row %v gives %v", row, got, base, want)
					}
					for f, v := range row {
						c.Outcome(fmt.Sprintf("%T", v))
						_ = f
					}
				}
				for i := range fields {
					for _, v := range pick[i] {
						row := base.clone()
						row[fields[i].name] = v
						try(row)
						for j := i + 1; j < len(fields); j++ {
							for _, w := range pick[j] {
								row := row.clone()
								row[fields[j].name] = w
								try(row)
							}
						}
					}
				}
			}
			pick := make([][]interface{}, len(fields))
			walk = func(i int, base Row, _ []repField) {
				if i == len(fields) {
					check(base, pick)
					return
				}
				for _, reps := range fields[i].vals {
					pick[i] = reps
					r := base.clone()
					r[fields[i].name] = canon(reps)
					walk(i+1, r, nil)
				}
			}
			walk(0, Row{}, nil)
			c.Sample(map[string]interface{}{"case": c.name, "document": x})
		})
	}

	// Predicates.
	lits := map[string][]string{"double": {"0", "1", "-0.25", "128", "1000000", "1e6", "2.5", "9007199254740992", "9223372036854775808", "1e19", "18446744073709551615"}, "float": {"0", "1", "2.5", "255"}, "integer": {"0", "1", "-1", "128", "65536", "1000000", "9007199254740993", "9223372036854775807", "-9223372036854775808"}}
	for _, ty := range []string{"double", "float", "integer"} {
		vals := append(append([][]interface{}{}, nums...), huge...)
		if ty == "integer" {
			vals = append(append(append([][]interface{}{}, intVals...), bigVals...), huge...)
		}
		for _, lit := range lits[ty] {
			for _, op := range ops6 {
				for _, pl := range placeNames {
					compare(fmt.Sprintf("%s %s %s in %s", ty, op, lit, pl), &Doc{Fields: []Field{{Name: "x", Type: ty}}, Model: placements(pS("x", op, lit), "x")[pl]}, repField{"x", vals})
				}
			}
		}
		for _, op := range []string{"isIn", "isNotIn"} {
			for _, pl := range placeNames {
				at, arr := "real", []string{"1", "2.5", "1000000", "-1"}
				if ty == "integer" {
					at, arr = "int", []string{"1", "128", "1000000", "9007199254740993"}
				}
				compare(fmt.Sprintf("%s %s in %s", ty, op, pl), &Doc{Fields: []Field{{Name: "x", Type: ty}}, Model: placements(&Pred{Kind: "set", Field: "x", Op: op, Array: arr, ArrayType: at}, "x")[pl]}, repField{"x", vals})
			}
		}
	}
	for _, pl := range placeNames {
		for _, op := range []string{"equal", "notEqual"} {
			for _, l := range []string{"true", "false"} {
				compare("boolean "+op+l+pl, &Doc{Fields: []Field{{Name: "x", Type: "boolean"}}, Model: placements(pS("x", op, l), "x")[pl]}, repField{"x", bools})
			}
			for _, l := range []string{"a", "5", "1000000", "0.5", "true", "-1"} {
				compare("string "+op+l+pl, &Doc{Fields: []Field{{Name: "x", Type: "string"}}, Model: placements(pS("x", op, l), "x")[pl]}, repField{"x", strs})
			}
		}
		for _, op := range []string{"isIn", "isNotIn"} {
			compare("string "+op+pl, &Doc{Fields: []Field{{Name: "x", Type: "string"}}, Model: placements(&Pred{Kind: "set", Field: "x", Op: op, Array: []string{"a", "5", "1000000", "-1", "true", ""}, ArrayType: "string"}, "x")[pl]}, repField{"x", strs})
			compare("boolean "+op+pl, &Doc{Fields: []Field{{Name: "x", Type: "boolean"}}, Model: placements(&Pred{Kind: "set", Field: "x", Op: op, Array: []string{"true"}, ArrayType: "string"}, "x")[pl]}, repField{"x", bools})
		}
		for _, op := range []string{"isMissing", "isNotMissing"} {
			all := append(append(append([][]interface{}{}, nums...), bools...), strs...)
			for _, ty := range []string{"double", "integer", "string", "boolean"} {
				compare(ty+" "+op+pl, &Doc{Fields: []Field{{Name: "x", Type: ty}}, Model: placements(pS("x", op, ""), "x")[pl]}, repField{"x", all})
			}
		}
	}
	// Derived fields.
	out := func(df DF, more ...DF) *Mdl {
		return &Mdl{Kind: "reg", Func: "regression", MFs: active("x", "y"), LT: append([]DF{df}, more...), Tables: []Table{{Intercept: 0, Nums: []NumPred{{"d", 1, 0}}}}, Out: []OutF{{Name: "out"}}}
	}
	for _, ty := range []string{"double", "integer", "float"} {
		f := []Field{{Name: "x", Type: ty}, {Name: "y", Type: ty}}
		for i, e := range []*Expr{eF("x"), eA("+", eF("x"), eF("y")), eA("-", eF("x"), eF("y")), eA("*", eF("x"), eF("y")), eA("/", eF("x"), eA("+", eF("y"), eK("0.3"))), eA("sum", eF("x"), eF("y"), eK("2")), eA("if", eA("isMissing", eF("x")), eK("5"), eF("y")), eA("+", eA("*", eF("x"), eK("2")), eA("-", eF("y"), eK("0.5")))} {
			for _, place := range []string{"td", "lt"} {
				m := out(dfC("d", e))
				d := &Doc{Fields: f, Model: m}
				if place == "td" {
					d.TD, m.LT = m.LT, nil
				}
				compare(fmt.Sprintf("derived %s %d %s", ty, i, place), d, repField{"x", smallNums}, repField{"y", smallNums})
				if ty == "double" {
					compare(fmt.Sprintf("huge derived %d %s", i, place), d, repField{"x", huge}, repField{"y", smallNums[:2]})
				}
			}
		}
	}
	for i, e := range []*Expr{eA("if", eF("x"), eK("3"), eK("4")), eA("if", eA("if", eF("x"), eF("y"), eF("x")), eK("3"), eK("4"))} {
		d := &Doc{Fields: []Field{{Name: "x", Type: "boolean"}, {Name: "y", Type: "boolean"}}, Model: out(dfC("d", e))}
		compare(fmt.Sprint("condition ", i), d, repField{"x", bools}, repField{"y", bools})
	}
	// Categorical derived fields keep the value's text or number.
	for _, ot := range []string{"categorical", "continuous"} {
		for _, ty := range []string{"double", "integer"} {
			vals := nums
			if ty == "integer" {
				vals = intVals
			}
			df := DF{Name: "d", OpType: ot, DataType: ty, Expr: eF("x")}
			for _, op := range ops6 {
				for _, lit := range []string{"1", "128", "1000000"} {
					compare(fmt.Sprintf("passed on %s %s %s %s", ot, ty, op, lit), &Doc{Fields: []Field{{Name: "x", Type: ty}}, TD: []DF{df}, Model: withMFs(probeTree(pS("d", op, lit)), "x")}, repField{"x", vals})
				}
			}
		}
	}
	// Table lookups: by number, text and boolean, one and two columns.
	key := func(reps [][]interface{}) []string {
		var k []string
		for _, r := range reps {
			t := ""
			for _, v := range r {
				if s, ok := v.(string); ok && t == "" {
					t = s
				}
			}
			if t == "" {
				t = asStr(refVal(canon(r)))
			}
			k = append(k, t)
		}
		return k
	}
	lookup := func(name, ty string, vals [][]interface{}) {
		ks := key(vals)
		for half := 0; half < 2; half++ {
			e := &Expr{Kind: "map", Cols: [][2]string{{"c", "x"}}, OutCol: "out", DataType: "double", Default: sp("-5")}
			e2 := &Expr{Kind: "map", Cols: [][2]string{{"c", "x"}, {"e", "y"}}, OutCol: "out", DataType: "double", Default: sp("-5")}
			for i, k := range ks {
				if i%2 == half {
					e.Rows = append(e.Rows, []string{k, fmt.Sprint(i + 1)})
				}
				for j, l := range ks {
					if j < 6 && (i+j)%2 == half {
						e2.Rows = append(e2.Rows, []string{k, l, fmt.Sprint(i*10 + j)})
					}
				}
			}
			f := []Field{{Name: "x", Type: ty}, {Name: "y", Type: ty}}
			compare(fmt.Sprint("lookup ", name, half), &Doc{Fields: f, Model: out(dfC("d", e))}, repField{"x", vals})
			compare(fmt.Sprint("lookup2 ", name, half), &Doc{Fields: f, Model: out(dfC("d", e2))}, repField{"x", vals[:min(len(vals), 6)]}, repField{"y", vals[:min(len(vals), 6)]})
			// no matching row: the input itself
			e3 := *e
			e3.Default, e3.DataType = nil, ""
			if ty != "string" && ty != "boolean" {
				compare(fmt.Sprint("lookup3 ", name, half), &Doc{Fields: f, Model: out(dfC("d", &e3))}, repField{"x", vals})
			}
		}
	}
	lookup("numbers", "double", nums)
	lookup("integers", "integer", append(append([][]interface{}{}, intVals...), bigVals...))
	lookup("huge numbers", "double", huge)
	lookup("strings", "string", strs)
	lookup("booleans", "boolean", bools)
	// Regression predictors.
	for _, link := range []string{"none", "exp", "logit", "softmax", "cauchit", "cloglog"} {
		for _, e := range []int{0, 2, 3, -1, exp0} {
			m := &Mdl{Kind: "reg", Func: "regression", Norm: link, MFs: active("x", "y"), Tables: []Table{{Intercept: 0.5, Nums: []NumPred{{"x", 1e-9, e}, {"y", 0.25, 0}}}}, Out: []OutF{{Name: "out"}}}
			compare(fmt.Sprintf("predictor %s %d", link, e), &Doc{Fields: dbl("x", "y"), Model: m}, repField{"x", smallNums}, repField{"y", smallNums})
			compare(fmt.Sprintf("huge predictor %s %d", link, e), &Doc{Fields: dbl("x", "y"), Model: m}, repField{"x", huge}, repField{"y", smallNums[:2]})
		}
		m := &Mdl{Kind: "reg", Func: "classification", Norm: link, MFs: active("x", "y"), Tables: []Table{{Category: "1", Intercept: 0.5, Nums: []NumPred{{"x", 1e-9, 0}, {"y", 0.25, 2}}}, {Category: "0"}}, Out: outs("1", "0")}
		if link != "exp" {
			compare("classes "+link, &Doc{Fields: dbl("x", "y"), Model: m}, repField{"x", smallNums}, repField{"y", smallNums})
		}
	}
	for ti, vals := range [][][]interface{}{strs, bools, intVals, nums} {
		name := []string{"string", "boolean", "integer", "double"}[ti]
		for _, k := range key(vals) {
			m := &Mdl{Kind: "reg", Func: "regression", MFs: active("x"), Tables: []Table{{Intercept: 0.5, Cats: []CatPred{{"x", k, 2}, {"x", "zz", 3}}}}, Out: []OutF{{Name: "out"}}}
			compare("categorical "+name+" "+k, &Doc{Fields: []Field{{Name: "x", Type: name}}, Model: m}, repField{"x", vals})
		}
	}
	// Ensembles: the same value in a segment's predicate, in its tree, and in the following links of a chain.
	for _, method := range []string{"sum", "average", "modelChain", "selectFirst"} {
		for _, ty := range []string{"double", "integer"} {
			vals := nums
			if ty == "integer" {
				vals = append(append([][]interface{}{}, intVals...), bigVals...)
			}
			for _, lit := range []string{"1", "128", "1000000"} {
				m := &Mdl{Kind: "mining", Func: "regression", Method: method, MFs: active("x"), Out: []OutF{{Name: "out"}}, Segs: []*Seg{
					{ID: "1", Pred: pS("x", "greaterOrEqual", lit), Model: withMFs(probeTree(pS("x", "equal", lit)), "x")},
					{ID: "2", Pred: pS("x", "notEqual", lit), Model: withMFs(constTree("3"), "x")},
					{ID: "3", Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: "regression", MFs: active("x"), Tables: []Table{{Intercept: 1, Nums: []NumPred{{"x", 0.5, 0}}, Cats: []CatPred{{"x", lit, 10}}}}, Out: []OutF{{Name: "score"}}}}}}
				compare(fmt.Sprintf("ensemble %s %s %s", method, ty, lit), &Doc{Fields: []Field{{Name: "x", Type: ty}}, Model: m}, repField{"x", vals})
			}
		}
	}
	for _, ty := range []string{"double", "integer"} {
		for _, last := range []string{"tree", "lookup", "category"} {
			first := &Mdl{Kind: "reg", Func: "regression", MFs: active("x"), Tables: []Table{{Intercept: 0, Nums: []NumPred{{"x", 1, 0}}}}, Out: []OutF{{Name: "s"}}}
			second := withMFs(probeTree(pS("s", "equal", "1000000")), "s")
			switch last {
			case "lookup":
				second = out(dfC("d", &Expr{Kind: "map", Cols: [][2]string{{"c", "s"}}, OutCol: "out", DataType: "double", Default: sp("-5"), Rows: [][]string{{"1000000", "1"}, {"128", "2"}, {"0.5", "3"}}}))
			case "category":
				second = &Mdl{Kind: "reg", Func: "regression", MFs: active("s"), Tables: []Table{{Intercept: 1, Cats: []CatPred{{"s", "1000000", 10}, {"s", "128", 20}}}}, Out: []OutF{{Name: "out"}}}
			}
			m := &Mdl{Kind: "mining", Func: "regression", Method: "modelChain", MFs: active("x"), Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: first}, {ID: "2", Pred: pTrue(), Model: second}}}
			compare("chain "+ty+" "+last, &Doc{Fields: []Field{{Name: "x", Type: "double"}, {Name: "s", Type: ty}}, Model: m}, repField{"x", intVals})
		}
	}
	// Whole documents: every row value in every representation.
	for _, it := range zoo() {
		for ri, row := range it.rows {
			var fs []repField
			for _, k := range sortedKeys(row) {
				switch v := refVal(row[k]).(type) {
				case bool:
					fs = append(fs, repField{k, [][]interface{}{boolReps(v)}})
				case int64:
					fs = append(fs, repField{k, [][]interface{}{intReps(big.NewInt(v))}})
				case float64:
					fs = append(fs, repField{k, [][]interface{}{realReps(v)}})
				case string:
					fs = append(fs, repField{k, [][]interface{}{texts(v)}})
				}
			}
			compare(fmt.Sprintf("zoo %s %d", it.name, ri), it.doc, fs...)
		}
	}
	// Values beyond the range of int64, in comparisons with smaller numbers.
	beyond := []interface{}{uint64(1) << 63, uint64(math.MaxUint64), uint(1) << 63, uint(math.MaxUint64), 1e19, 1e300, math.Inf(1), float32(1e19), float32(3e38), "9223372036854775808", "18446744073709551616", "1e300", s1{"99999999999999999999"}, new(big.Int).Lsh(big.NewInt(1), 80)}
	below := []interface{}{-1e19, -1e300, math.Inf(-1), float32(-1e19), "-9223372036854775809", "-1e300", s1{"-99999999999999999999"}, new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 80))}
	for _, ty := range []string{"integer", "double", "float"} {
		for _, lit := range []string{"0", "100", "-100", "4611686018427387904", "-4611686018427387904"} {
			for _, op := range ops6 {
				for _, pl := range placeNames {
					c.Case(fmt.Sprintf("beyond %s %s %s %s", ty, op, lit, pl), func() {
						for sign, vs := range [][]interface{}{below, beyond} {
							d := &Doc{Fields: []Field{{Name: "x", Type: ty}}, Model: placements(pS("x", op, lit), "x")[pl]}
							x := d.XML()
							c.curDetail = x
							m, err := build(x)
							if err != nil {
								c.Fail(x, "refused: %v", err)
							}
							c.r.States++
							want := score(m, Row{"x": []interface{}{-6e18, 6e18}[sign]})
							if ty == "integer" {
								want = score(m, Row{"x": []interface{}{int64(-6e18), int64(6e18)}[sign]})
							}
							for _, v := range vs {
								got := score(m, Row{"x": v})
								c.r.Transitions++
								c.r.Validated++
								if s := diff(got, want); s != "" {
									c.Fail(x, "x = %s: %s", typesOf(v), s)
								}
							}
						}
					})
				}
			}
		}
	}
	c.Case("conversions", func() {
		for _, v := range beyond {
			if n := evaluation.NewValue(v).Int64(); n < math.MaxInt64 {
				c.Fail("", "%s as int64 is %d", typesOf(v), n)
			}
			if f := evaluation.NewValue(v).Float64(); f < 9e18 {
				c.Fail("", "%s as float64 is %v", typesOf(v), f)
			}
		}
		for _, v := range below {
			if n := evaluation.NewValue(v).Int64(); n > math.MinInt64 {
				c.Fail("", "%s as int64 is %d", typesOf(v), n)
			}
		}
		for _, reps := range append(append([][]interface{}{}, nums...), bigVals...) {
			for _, v := range reps {
				a, b := evaluation.NewValue(v), evaluation.NewValue(canon(reps))
				if a.Int64() != b.Int64() || a.Float64() != b.Float64() || a.String() != b.String() {
					c.Fail("", "%s is %d, %v, %q, but%s is %d, %v, %q", typesOf(v), a.Int64(), a.Float64(), a.String(), typesOf(canon(reps)), b.Int64(), b.Float64(), b.String())
				}
			}
		}
	})
}
