package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Documents that make a predicate's three truth values visible.

func constTree(score string) *Mdl {
	return &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: score, Pred: pTrue()}}
}

// probeTree scores 1 for true, 0 for false, and gives no prediction for unknown.
func probeTree(p *Pred) *Mdl {
	return &Mdl{Kind: "tree", Func: "regression", MVS: "nullPrediction",
		Root: &Node{ID: "r", Score: "0", Pred: pTrue(), Kids: []*Node{{ID: "k", Score: "1", Pred: p}}}}
}

func sumOf(out string, ms ...*Mdl) *Mdl {
	m := &Mdl{Kind: "mining", Func: "regression", Method: "sum", Out: []OutF{{Name: out}}}
	for i, x := range ms {
		m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(i + 1), Pred: pTrue(), Model: x})
	}
	return m
}

func withMFs(m *Mdl, names ...string) *Mdl {
	m.MFs = append(m.MFs, active(names...)...)
	for _, s := range m.Segs {
		withMFs(s.Model, names...)
	}
	return m
}

// placements of a predicate over the given fields.
func placements(p *Pred, names ...string) map[string]*Mdl {
	r := map[string]*Mdl{}
	r["child"] = probeTree(p)
	plain := probeTree(p)
	plain.MVS = ""
	r["child-none"] = plain
	r["root"] = &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "7", Pred: p}}
	r["second-child"] = &Mdl{Kind: "tree", Func: "regression", MVS: "nullPrediction", Root: &Node{ID: "r", Score: "0", Pred: pTrue(),
		Kids: []*Node{{ID: "a", Score: "5", Pred: pFalse()}, {ID: "b", Score: "1", Pred: p}, {ID: "c", Score: "2", Pred: pTrue()}}}}
	r["grandchild"] = &Mdl{Kind: "tree", Func: "regression", MVS: "lastPrediction", Root: &Node{ID: "r", Score: "0", Pred: pTrue(),
		Kids: []*Node{{ID: "a", Score: "5", Pred: pTrue(), Kids: []*Node{{ID: "b", Score: "1", Pred: p}, {ID: "c", Score: "2", Pred: pTrue()}}}}}}
	r["and"] = probeTree(pC("and", pTrue(), p))
	r["or"] = probeTree(pC("or", p, pFalse()))
	r["surrogate"] = &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "0", Pred: pTrue(),
		Kids: []*Node{{ID: "a", Score: "1", Pred: pC("surrogate", p, pFalse())}, {ID: "b", Score: "2", Pred: pC("surrogate", p, pTrue())}}}}
	seg := sumOf("out", constTree("10"), constTree("1"))
	seg.Segs[1].Pred = p
	r["segment"] = seg
	deep := sumOf("out", constTree("10"), probeTree(pC("and", p, pTrue())))
	deep.Segs[1].Pred = pC("or", p, pFalse())
	r["segment-tree"] = deep
	for _, m := range r {
		withMFs(m, names...)
	}
	return r
}

var placeNames = []string{"child", "child-none", "root", "second-child", "grandchild", "and", "or", "surrogate", "segment", "segment-tree"}

type s1 struct{ s string }

func (s s1) String() string { return s.s }

func init() {
	register(&prop{id: "C01", level: "model_checking",
		what:   "one state per document: operator x data type x predicate value x place; one transition per library call (decode+build, or Evaluate); one validated trace per row whose outcome was compared with the reference truth value. Complete enumeration of the stated alphabets.",
		assume: []string{"values outside the boundary alphabets behave like their neighbours", "ill-typed values and NaN are not decided (counted as unspecified)"},
		run:    runC01})
}

var ops6 = []string{"equal", "notEqual", "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual"}

func runC01(c *Ctx) {
	type typ struct {
		name, optype string
		lits         []string
		vals         []interface{}
	}
	around := func(fs ...float64) (r []interface{}) {
		for _, f := range fs {
			r = append(r, f, math.Nextafter(f, math.Inf(-1)), math.Nextafter(f, math.Inf(1)), f-1, f+1)
		}
		return
	}
	inf := math.Inf(1)
	dvals := append(around(0, 0.1, -0.5, -0.25, 8, 10, 100, -7.5, 0.01, -2.5, 1e300, 5e-324, 16777217, 9007199254740993, 0.30000000000000004), inf, -inf, -1e300, math.MaxFloat64, math.Copysign(0, -1),
		int64(0), int64(5), int64(-3), int32(7), float32(0.5), "0.1", "-2.5", "1e300", "0", "5", "  ", uint8(200))
	ivals := []interface{}{}
	for _, i := range []int64{0, 1, -1, 5, 7, -7, 8, 10, 15, 17, 64, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740992, 9007199254740993, -9007199254740993, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1} {
		ivals = append(ivals, i, fmt.Sprint(i))
		if i > -1<<53 && i < 1<<53 {
			ivals = append(ivals, float64(i))
		}
	}
	ivals = append(ivals, int(3), int8(-128), int8(127), int16(300), int32(5), uint8(255), uint16(65535), uint32(4294967295), uint64(5), uint(5))
	svals := []interface{}{"", "a", "A", "b", "ab", " a", "a ", "é", "日本", "1", "1.0", "01", "010", "8", "10", "true", "<&>\"'", "a b", s1{"a"}, int64(1), true, 1.5, "null", "nil", "<nil>", "NaN"}
	bvals := []interface{}{true, false, "true", "false"}
	types := []typ{
		{"double", "continuous", []string{"0", "-0", "0.1", "-2.5", "1e300", "5e-324", "16777217", "9007199254740993", "5", "0.30000000000000004", "+5", "1E2", ".5", "5.", "010", "-007.50", "1e+02", "1e-2", "-0.5", "-.25", "-0.01"}, dvals},
		{"float", "continuous", []string{"0", "0.1", "-2.5", "1e300", "16777217", "5", "0.30000000000000004", "-0.5", "1e-2"}, dvals},
		{"integer", "continuous", []string{"0", "1", "-1", "5", "127", "255", "256", "2147483647", "2147483648", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808", "010", "-007", "+5", "00", "0100", "0000000000000000000000017"}, ivals},
		{"string", "categorical", []string{"", "a", "A", "b", "ab", " a", "a ", "é", "日本", "1", "1.0", "010", "true", "<&>\"'", "a b", "null", "NaN"}, svals},
		{"boolean", "categorical", []string{"true", "false"}, bvals},
	}
	for _, ty := range types {
		fields := []Field{{Name: "x", Type: ty.name, OpType: ty.optype}, {Name: "y", Type: "double", OpType: "continuous"}}
		rows := []Row{{}, {"x": nil}, {"y": 1.0}}
		for _, v := range ty.vals {
			rows = append(rows, Row{"x": v})
		}
		run := func(name string, p *Pred) {
			for _, pl := range placeNames {
				c.Case(fmt.Sprintf("%s %s %s", ty.name, name, pl), func() {
					c.Check(&Doc{Fields: fields, Model: placements(p, "x", "y")[pl]}, rows...)
				})
			}
		}
		for _, op := range ops6 {
			for _, lit := range ty.lits {
				run(op+" "+lit, pS("x", op, lit))
			}
		}
		run("isMissing", pS("x", "isMissing", ""))
		run("isNotMissing", pS("x", "isNotMissing", ""))
		// Set predicates: every subset of the literals of size 1..2, and all of them.
		at := "real"
		switch ty.name {
		case "string", "boolean":
			at = "string"
		case "integer":
			at = "int"
		}
		var sets [][]string
		for i := range ty.lits {
			sets = append(sets, []string{ty.lits[i]})
			for j := range ty.lits {
				if i != j {
					sets = append(sets, []string{ty.lits[i], ty.lits[j]})
				}
			}
		}
		sets = append(sets, ty.lits, []string{}, []string{ty.lits[0], ty.lits[0]})
		for _, op := range []string{"isIn", "isNotIn"} {
			for _, s := range sets {
				if !c.Thorough && len(s) == 2 && strings.Compare(s[0], s[1]) > 0 {
					continue
				}
				run(fmt.Sprintf("%s %q", op, s), &Pred{Kind: "set", Field: "x", Op: op, Array: s, ArrayType: at})
			}
		}
		// Long sets: every member is found, whatever the length, and nothing else.
		for _, n := range []int{10, 33, 70, 150, 300} {
			var s, odd []string
			for i := 0; i < n; i++ {
				s = append(s, fmt.Sprint(2*i))
				switch {
				case ty.name == "integer":
					odd = append(odd, fmt.Sprintf("%0*d", 1+i%4, 2*i), fmt.Sprint(-2*i))
				case ty.name == "string":
					odd = append(odd, fmt.Sprintf("%d%s", 2*i, []string{"", ".0", " ", "e0"}[i%4]))
				default:
					odd = append(odd, fmt.Sprintf([]string{"%d.0", "%de0", "0%d", "%d.", "%d.5"}[i%5], 2*i), fmt.Sprintf("-%d.25", 2*i))
				}
			}
			if ty.name == "boolean" {
				continue
			}
			var rs []Row
			for i := -1; i <= 2*n; i++ {
				if ty.name == "string" {
					rs = append(rs, Row{"x": fmt.Sprint(i)}, Row{"x": fmt.Sprint(i, ".0")}, Row{"x": fmt.Sprint(i, " ")})
				} else {
					rs = append(rs, Row{"x": float64(i)}, Row{"x": int64(i)}, Row{"x": fmt.Sprint(i)}, Row{"x": fmt.Sprintf("%.1f", float64(i))}, Row{"x": float64(-i)})
					if ty.name != "integer" {
						rs = append(rs, Row{"x": float64(i) + 0.5}, Row{"x": float64(-i) - 0.25}, Row{"x": fmt.Sprintf("%de0", i)}, Row{"x": float32(i)})
					}
				}
			}
			rs = append(rs, Row{}, Row{"x": nil}, Row{"x": "zz"})
			for _, op := range []string{"isIn", "isNotIn"} {
				c.Case(fmt.Sprintf("%s %s of %d", ty.name, op, n), func() {
					c.Bound("set size", n)
					c.Check(&Doc{Fields: fields, Model: placements(&Pred{Kind: "set", Field: "x", Op: op, Array: s, ArrayType: at}, "x")["child"]}, rs...)
					c.Check(&Doc{Fields: fields, Model: placements(&Pred{Kind: "set", Field: "x", Op: op, Array: odd, ArrayType: at}, "x")["child"]}, rs...)
				})
			}
		}
	}
	// Every way of writing a number.
	for _, lit := range decimals(c.Thorough) {
		f, _ := strconv.ParseFloat(lit, 64)
		for _, ty := range []string{"double", "float"} {
			for _, op := range []string{"lessThan", "equal", "isIn"} {
				c.Case(fmt.Sprintf("%s %s %s", ty, op, lit), func() {
					p := pS("x", op, lit)
					if op == "isIn" {
						p = &Pred{Kind: "set", Field: "x", Op: op, Array: []string{lit}, ArrayType: "real"}
					}
					var rows []Row
					for _, v := range append(around(f), -f, 10*f, f/10, 0.0) {
						rows = append(rows, Row{"x": v})
					}
					c.Check(&Doc{Fields: []Field{{Name: "x", Type: ty}}, Model: withMFs(probeTree(p), "x")}, rows...)
				})
			}
		}
	}
	// Field names are looked up exactly, and each predicate looks at its own field.
	names := []string{"x", "X", "x ", "xx", "score", "probability(a)", "é", "a.b", "a:b", "true"}
	for _, n := range names {
		for _, op := range []string{"greaterThan", "isMissing", "isNotMissing", "equal"} {
			for _, pl := range placeNames {
				c.Case(fmt.Sprintf("field %q %s %s", n, op, pl), func() {
					var rows []Row
					for _, k := range names {
						rows = append(rows, Row{k: 1.0}, Row{k: 0.0})
						if k != n {
							rows = append(rows, Row{k: 1.0, n: 0.0}, Row{k: 0.0, n: 1.0}, Row{k: nil, n: 1.0}, Row{n: nil, k: 1.0})
						}
					}
					c.Check(&Doc{Fields: dbl(names...), Model: placements(pS(n, op, "0.5"), names...)[pl]}, rows...)
				})
			}
		}
	}
	// The type is that of the field the predicate names: documents with fields of all types, declared in any order.
	all := []Field{{Name: "d", Type: "double"}, {Name: "i", Type: "integer"}, {Name: "s", Type: "string"}, {Name: "b", Type: "boolean"}, {Name: "f", Type: "float"}}
	lit := map[string]string{"d": "1", "i": "1", "s": "1", "b": "true", "f": "1"}
	perms(len(all), func(p []int) {
		fs := make([]Field, len(all))
		for i, k := range p {
			fs[i] = all[k]
		}
		for _, f := range all {
			c.Case(fmt.Sprintf("types %v %s", p, f.Name), func() {
				d := &Doc{Fields: fs, Model: placements(pS(f.Name, "equal", lit[f.Name]), "d", "i", "s", "b", "f")["child"]}
				var rows []Row
				for _, v := range []interface{}{"1.0", "1", "01", "true", "false", true, false, 1.0, int64(1), 0.0, ""} {
					rows = append(rows, Row{f.Name: v}, Row{"d": 1.0, "i": int64(1), "s": "1", "b": true, "f": 1.0, f.Name: v})
				}
				c.Check(d, rows...)
			})
		}
	})
	// Derived fields have their declared type in predicates.
	for _, typ := range []string{"double", "float", "integer", "string"} {
		for _, op := range ops6 {
			for _, where := range []string{"local", "dictionary"} {
				for _, pl := range placeNames {
					c.Case(fmt.Sprintf("derived %s %s %s %s", typ, op, where, pl), func() {
						opt := "continuous"
						if typ == "string" {
							opt = "categorical"
						}
						df := DF{Name: "z", OpType: opt, DataType: typ, Expr: eF("x")}
						m := placements(pS("z", op, "2"), "x")[pl]
						ft := "double"
						if typ == "string" {
							ft = "string"
						}
						d := &Doc{Fields: []Field{{Name: "x", Type: ft}}, Model: m}
						if where == "local" {
							m.LT = []DF{df}
						} else {
							d.TD = []DF{df}
						}
						if typ == "string" {
							c.Check(d, Row{}, Row{"x": nil}, Row{"x": "2"}, Row{"x": "2.0"}, Row{"x": "3"}, Row{"x": ""})
						} else {
							c.Check(d, Row{}, Row{"x": nil}, Row{"x": 1.0}, Row{"x": 2.0}, Row{"x": 3.0}, Row{"x": int64(2)}, Row{"x": "2"}, Row{"x": float32(2)})
						}
					})
				}
			}
		}
	}
}

// decimals are ways to write numbers: sign, whole part, fraction, exponent.
func decimals(all bool) []string {
	whole := []string{"", "0", "00", "1", "007", "12", "1234567", "9007199254740993"}
	frac := []string{"", ".", ".0", ".5", ".05", ".50", ".125", ".000001", ".123456789012345678"}
	exp := []string{"", "e0", "E1", "e+2", "e-02", "e-10", "E20"}
	if !all {
		whole = []string{"", "0", "1", "007", "1234567"}
		frac = []string{"", ".", ".5", ".05", ".123456789012345678"}
		exp = []string{"", "E1", "e-02"}
	}
	var r []string
	for _, s := range []string{"", "-", "+"} {
		for _, w := range whole {
			for _, f := range frac {
				for _, e := range exp {
					if w+f == "" || w+f == "." {
						continue
					}
					r = append(r, s+w+f+e)
				}
			}
		}
	}
	return r
}

// perms calls f with every permutation of 0..n-1, in lexicographic order.
func perms(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// vectors calls f with every vector of length n over 0..k-1.
func vectors(n, k int, f func([]int)) {
	v := make([]int, n)
	for {
		f(append([]int{}, v...))
		i := n - 1
		for ; i >= 0; i-- {
			v[i]++
			if v[i] < k {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}
