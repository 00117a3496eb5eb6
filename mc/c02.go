package main

import (
	"fmt"
)

func init() {
	register(&prop{id: "C02", level: "model_checking",
		what:   "one state per predicate structure (operators x shape x member kinds); one transition per library call; one validated trace per assignment of true/false/unknown to the members, compared with the three-valued tables. All structures and assignments within the stated bounds are visited; wide and deep structures are swept with every position of one and two deviating members.",
		assume: []string{"members are unary tests of distinct fields, set predicates, True and False; how a member gets its truth value is C01's subject"},
		run:    runC02})
}

var compOps = []string{"and", "or", "xor", "surrogate"}

// shapes calls f with every ordered tree of exactly n nodes, as the list of child counts in preorder.
func shapes(n int, f func([]int)) {
	var rec func(pre []int, open, left int)
	// open: subtrees still to be placed; left: nodes left.
	rec = func(pre []int, open, left int) {
		if open == 0 {
			if left == 0 {
				f(append([]int{}, pre...))
			}
			return
		}
		if left < open {
			return
		}
		for k := 0; k <= left-open; k++ {
			rec(append(pre, k), open-1+k, left-1)
		}
	}
	rec(nil, 1, n)
}

func leafName(i int) string { return fmt.Sprintf("x%d", i) }

func leafPred(kind, i int) *Pred {
	switch kind {
	case 1:
		return pTrue()
	case 2:
		return pFalse()
	case 3:
		return &Pred{Kind: "set", Field: leafName(i), Op: "isIn", Array: []string{"1", "3"}, ArrayType: "real"}
	case 4:
		return pS(leafName(i), "isMissing", "")
	case 5:
		return &Pred{Kind: "set", Field: leafName(i), Op: "isNotIn", Array: []string{"0", "3"}, ArrayType: "real"}
	}
	return pS(leafName(i), "equal", "1")
}

// rows3 enumerates T, F, U for fields x0..x(n-1).
func rows3(n int) []Row {
	var rows []Row
	vectors(n, 3, func(v []int) {
		r := Row{}
		for i, t := range v {
			if t < 2 {
				r[leafName(i)] = float64(t)
			}
		}
		rows = append(rows, r)
	})
	return rows
}

func leafNames(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, leafName(i))
	}
	return r
}

// predOfShape makes the predicate with the given shape, operators and leaf kinds (nil: all simple).
func predOfShape(sh []int, ops []string, kinds []int) (*Pred, int) {
	pos, op, leaf := 0, 0, 0
	var rec func() *Pred
	rec = func() *Pred {
		k := sh[pos]
		pos++
		if k == 0 {
			kind := 0
			if kinds != nil {
				kind = kinds[leaf]
			}
			leaf++
			return leafPred(kind, leaf-1)
		}
		p := pC(ops[op])
		op++
		for i := 0; i < k; i++ {
			p.Subs = append(p.Subs, rec())
		}
		return p
	}
	p := rec()
	return p, leaf
}

func runC02(c *Ctx) {
	rowCache := map[int][]Row{}
	rowsFor := func(n int) []Row {
		if rowCache[n] == nil {
			rowCache[n] = rows3(n)
		}
		return rowCache[n]
	}
	doc := func(p *Pred, n int, place string) *Doc {
		names := leafNames(n)
		return &Doc{Fields: dbl(names...), Model: placements(p, names...)[place]}
	}
	// 1. Every truth vector up to a length, every operator, every member-kind vector for short ones.
	maxLen := 6
	if c.Thorough {
		maxLen = 9
	}
	for n := 1; n <= maxLen; n++ {
		for _, op := range compOps {
			for _, pl := range []string{"child", "segment", "child-none"} {
				c.Case(fmt.Sprintf("%s of %d, %s", op, n, pl), func() {
					p := pC(op)
					for i := 0; i < n; i++ {
						p.Subs = append(p.Subs, leafPred(0, i))
					}
					c.Bound("members, all vectors", n)
					c.Check(doc(p, n, pl), rowsFor(n)...)
				})
			}
		}
	}
	kindLen := 3
	if c.Thorough {
		kindLen = 4
	}
	for n := 1; n <= kindLen; n++ {
		for _, op := range compOps {
			vectors(n, 6, func(kinds []int) {
				for _, pl := range []string{"child", "segment-tree"} {
					c.Case(fmt.Sprintf("%s kinds %v %s", op, kinds, pl), func() {
						p := pC(op)
						for i, k := range kinds {
							p.Subs = append(p.Subs, leafPred(k, i))
						}
						c.Check(doc(p, n, pl), rowsFor(n)...)
					})
				}
			})
		}
	}
	// 2. Every nesting up to a size, every operator assignment.
	maxNodes := 6
	if c.Thorough {
		maxNodes = 8
	}
	for n := 2; n <= maxNodes; n++ {
		shapes(n, func(sh []int) {
			internal := 0
			for _, k := range sh {
				if k > 0 {
					internal++
				}
			}
			vectors(internal, 4, func(o []int) {
				c.Case(fmt.Sprintf("shape %v ops %v", sh, o), func() {
					ops := make([]string, len(o))
					for i, x := range o {
						ops[i] = compOps[x]
					}
					p, leaves := predOfShape(sh, ops, nil)
					c.Bound("nodes, all shapes", n)
					c.Check(doc(p, leaves, "child"), rowsFor(leaves)...)
					if n <= 5 {
						c.Check(doc(p, leaves, "segment"), rowsFor(leaves)...)
						for k := 1; k <= 3; k++ {
							vectors(leaves, 2, func(which []int) {
								kinds := make([]int, leaves)
								for i := range kinds {
									kinds[i] = which[i] * k
								}
								q, _ := predOfShape(sh, ops, kinds)
								c.Check(doc(q, leaves, "child"), rowsFor(leaves)...)
							})
						}
					}
				})
			})
		})
	}
	// 3. Members sharing fields, identical members, a predicate object of the same text twice.
	for _, op := range compOps {
		for _, op2 := range compOps {
			vectors(4, 2, func(f []int) {
				c.Case(fmt.Sprintf("shared %s %s %v", op, op2, f), func() {
					p := pC(op, leafPred(0, f[0]), pC(op2, leafPred(3, f[1]), leafPred(0, f[2])), leafPred(5, f[3]))
					c.Check(doc(p, 2, "child"), rowsFor(2)...)
				})
			})
		}
	}
	// 4. Wide: all members alike but for one or two deviating ones, at every position.
	widths := []int{8, 15, 16, 17, 31, 32, 33, 64, 65, 128, 200, 300}
	if c.Thorough {
		widths = append(widths, 7, 9, 63, 127, 129, 255, 256, 257, 400)
	}
	for _, n := range widths {
		for _, op := range compOps {
			for base := 0; base < 3; base++ {
				c.Case(fmt.Sprintf("wide %s %d base %d", op, n, base), func() {
					p := pC(op)
					for i := 0; i < n; i++ {
						p.Subs = append(p.Subs, leafPred(0, i))
					}
					c.Bound("members, swept", n)
					mk := func(dev ...int) Row {
						r := Row{}
						for i := 0; i < n; i++ {
							if base < 2 {
								r[leafName(i)] = float64(base)
							}
						}
						for i := 0; i+1 < len(dev); i += 2 {
							if dev[i+1] < 2 {
								r[leafName(dev[i])] = float64(dev[i+1])
							} else {
								delete(r, leafName(dev[i]))
							}
						}
						return r
					}
					rows := []Row{mk()}
					step := 1
					if n > 70 {
						step = n / 12
					}
					for _, i := range positions(n) {
						for v := 0; v < 3; v++ {
							if v == base {
								continue
							}
							rows = append(rows, mk(i, v))
							for j := 0; j < n; j += step {
								if j != i && (n <= 33 || i%step == 0 || j == 0) {
									rows = append(rows, mk(i, v, j, 3-base-v))
								}
							}
						}
					}
					c.Check(doc(p, n, "child"), rows...)
				})
			}
		}
	}
	// Any number of true members, false ones and unknown ones, in every order of the three blocks.
	many := []int{40, 300, 1100}
	if c.Thorough {
		many = append(many, 70000)
	}
	for _, n := range many {
		for _, op := range compOps {
			perms(3, func(o []int) {
				c.Case(fmt.Sprintf("counts %s %d %v", op, n, o), func() {
					c.Bound("members, every number of true ones", n)
					p := pC(op)
					block := func(k, size int) {
						for i := 0; i < size; i++ {
							switch k {
							case 0: // true for the first x of them, false for the others
								p.Subs = append(p.Subs, pS("x0", "greaterThan", num(float64(i)+0.5)))
							case 1:
								p.Subs = append(p.Subs, pS("x1", "equal", "1"))
							case 2:
								p.Subs = append(p.Subs, pS("x2", "lessThan", num(float64(i)+0.5)))
							}
						}
					}
					sizes := []int{n, 1, n / 3}
					for _, k := range o {
						block(k, sizes[k])
					}
					var rows []Row
					step := 1
					if n > 2000 {
						step = 97
					}
					for x := 0; x <= n; x += step {
						r := Row{"x0": float64(x), "x2": float64(x % (n/3 + 1))}
						if x%3 < 2 {
							r["x1"] = float64(x % 3)
						}
						if x%4 == 3 {
							delete(r, "x2")
						}
						rows = append(rows, r)
					}
					for k := 0; k < 256 && k < n; k++ {
						rows = append(rows, Row{"x0": float64(n - k), "x1": 1.0, "x2": -1.0}, Row{"x1": 0.0, "x2": float64(k)})
					}
					c.Check(doc(p, 3, "child"), rows...)
				})
			})
		}
	}
	// 5. Deep: a chain of compounds, innermost or outermost member deciding.
	depths := []int{5, 10, 20, 30}
	if c.Thorough {
		depths = append(depths, 50, 100, 200)
	}
	for _, dep := range depths {
		for a := range compOps {
			for b := range compOps {
				for _, side := range []string{"left", "right", "only"} {
					c.Case(fmt.Sprintf("deep %d %s/%s %s", dep, compOps[a], compOps[b], side), func() {
						p := leafPred(0, 0)
						for i := 1; i <= dep; i++ {
							op := compOps[a]
							if i%2 == 0 {
								op = compOps[b]
							}
							switch side {
							case "left":
								p = pC(op, p, leafPred(0, i%3+1))
							case "right":
								p = pC(op, leafPred(0, i%3+1), p)
							default:
								p = pC(op, p)
							}
						}
						c.Bound("nesting depth, swept", dep)
						c.Check(doc(p, 4, "child"), rowsFor(4)...)
					})
				}
			}
		}
	}
}
