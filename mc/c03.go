package main

import (
	"fmt"
	"math"
)

func init() {
	register(&prop{id: "C03", level: "model_checking",
		what:   "one state per tree (shape x strategies x function x identifiers x carriers of scores); one transition per library call; one validated trace per assignment of true/false to the node predicates, compared with the reference walk. Every ordered tree up to the node bound with every assignment is visited; wide, deep and bushy trees are swept.",
		assume: []string{"node predicates are unary tests of distinct fields (C01 and C02 decide predicates)"},
		run:    runC03})
}

var mvsAll = []string{"", "none", "lastPrediction", "nullPrediction", "defaultChild", "weightedConfidence", "aggregateNodes"}
var ntcAll = []string{"", "returnLastPrediction", "returnNullPrediction"}

// treeOfShape: node i tests field x<i> (the root is True if rootTrue) and carries score i or a distribution.
func treeOfShape(sh []int, fn string, carrier int, ids int, rootTrue bool) *Node {
	pos := 0
	var rec func() *Node
	rec = func() *Node {
		i := pos
		k := sh[pos]
		pos++
		n := &Node{Pred: leafPred(0, i)}
		if i == 0 && rootTrue {
			n.Pred = pTrue()
		}
		switch ids {
		case 0:
			n.ID = fmt.Sprintf("n%d", i)
		case 2:
			n.ID = "same"
		}
		carry(n, i, fn, carrier)
		for j := 0; j < k; j++ {
			kid := rec()
			n.Kids = append(n.Kids, kid)
		}
		if k > 0 {
			n.DefaultChild = n.Kids[k-1].ID
		}
		return n
	}
	return rec()
}

// carry gives node i a recognisable prediction.
func carry(n *Node, i int, fn string, carrier int) {
	n.RC = float64(10 + 3*i)
	if fn == "regression" {
		n.Score = num(float64(i) + 0.5)
		return
	}
	labels := []string{"a", "b", "c"}
	switch carrier {
	case 0: // record counts
		n.Dist = []SD{{"a", float64(1 + i*i), nil}, {"b", float64(2 + 3*i), nil}, {"c", 5, nil}}
	case 1: // probabilities
		p := 0.1 + 0.05*float64(i%7)
		n.Dist = []SD{{"a", float64(i + 1), fp(p)}, {"b", float64(i * 2), fp(0.9 - p)}, {"c", 1, fp(0.1)}}
	case 2: // score only
		n.Score = labels[i%3]
	case 3: // score only, unlisted classes
		n.Score = fmt.Sprintf("class%d", i)
	}
}

func treeDoc(fn string, root *Node, carrier int, mvs, ntc string, pen *float64, fields ...string) *Doc {
	d := &Doc{Fields: dbl(fields...)}
	t := Field{Name: "y", Type: "string", OpType: "categorical"}
	if carrier == 2 {
		t.Values = []string{"a", "b", "c"}
	}
	d.Fields = append(d.Fields, t)
	d.Model = &Mdl{Kind: "tree", Func: fn, MVS: mvs, NTC: ntc, Penalty: pen, Root: root}
	d.Model.MFs = append(active(fields...), MF{Name: "y", Usage: "target"})
	return d
}

func rows2(n int, from int) []Row {
	var rows []Row
	vectors(n-from, 2, func(v []int) {
		r := Row{}
		for i := 0; i < from; i++ {
			r[leafName(i)] = 1.0
		}
		for i, t := range v {
			r[leafName(i+from)] = float64(t)
		}
		rows = append(rows, r)
	})
	return rows
}

func runC03(c *Ctx) {
	maxNodes := 6
	if c.Thorough {
		maxNodes = 8
	}
	type fc struct {
		fn      string
		carrier int
	}
	fcs := []fc{{"regression", 0}, {"classification", 0}, {"classification", 1}, {"classification", 2}, {"classification", 3}}
	for n := 1; n <= maxNodes; n++ {
		rowsN := rows2(n, 0)
		shapes(n, func(sh []int) {
			c.Bound("nodes, all shapes", n)
			for _, mvs := range mvsAll {
				for _, ntc := range ntcAll {
					c.Case(fmt.Sprintf("shape %v %s %s", sh, mvs, ntc), func() {
						for _, k := range fcs {
							if n >= 6 && k.carrier > 0 && !c.Thorough {
								continue
							}
							c.Check(treeDoc(k.fn, treeOfShape(sh, k.fn, k.carrier, 0, false), k.carrier, mvs, ntc, nil, leafNames(n)...), rowsN...)
							if n <= 5 {
								for ids := 1; ids <= 2; ids++ {
									c.Check(treeDoc(k.fn, treeOfShape(sh, k.fn, k.carrier, ids, true), k.carrier, mvs, ntc, fp(0.7), leafNames(n)...), rowsN[len(rowsN)/2:]...)
								}
							}
						}
					})
				}
			}
		})
	}
	// Nodes without a prediction of their own: every subset of the nodes.
	maxBare := 4
	if c.Thorough {
		maxBare = 5
	}
	for n := 1; n <= maxBare; n++ {
		rowsN := rows2(n, 0)
		shapes(n, func(sh []int) {
			vectors(n, 2, func(bare []int) {
				c.Bound("nodes, every subset without a score", n)
				for _, mvs := range mvsAll[1:] {
					for _, ntc := range ntcAll[1:] {
						c.Case(fmt.Sprintf("bare %v %v %s %s", sh, bare, mvs, ntc), func() {
							for _, k := range fcs[:4] {
								root := treeOfShape(sh, k.fn, k.carrier, 0, false)
								i := 0
								var strip func(n *Node)
								strip = func(n *Node) {
									if bare[i] == 1 {
										n.Score, n.Dist = "", nil
									}
									i++
									for _, k := range n.Kids {
										strip(k)
									}
								}
								strip(root)
								c.Check(treeDoc(k.fn, root, k.carrier, mvs, ntc, nil, leafNames(n)...), rowsN...)
							}
						})
					}
				}
			})
		})
	}
	// Children that test one field for equality (membership, order), values repeated or not.
	maxEq := 5
	if c.Thorough {
		maxEq = 7
	}
	for n := 1; n <= maxEq; n++ {
		for _, ty := range []string{"string", "double", "integer"} {
			for form := 0; form < 4; form++ {
				vectors(n, 3, func(v []int) {
					c.Case(fmt.Sprintf("one field %s %v %d", ty, v, form), func() {
						c.Bound("children that test one field, all vectors over three values", n)
						for _, mvs := range []string{"", "none", "lastPrediction", "defaultChild", "weightedConfidence"} {
							for _, ntc := range ntcAll[1:] {
								fn := []string{"regression", "classification"}[len(mvs)%2]
								root := &Node{ID: "r", Pred: pTrue()}
								carry(root, 0, fn, 3)
								for i, k := range v {
									val := fmt.Sprint(k + 1)
									p := pS("s", "equal", val)
									switch {
									case form == 1 && i%2 == 1:
										p = &Pred{Kind: "set", Field: "s", Op: "isIn", Array: []string{val, "9"}, ArrayType: map[string]string{"string": "string", "double": "real", "integer": "int"}[ty]}
									case form == 2 && i == n/2:
										p = pC("or", p, pS("s", "equal", "9"))
									case form == 3 && i == n-1:
										p = pTrue()
									}
									kid := &Node{ID: fmt.Sprint(i + 1), Pred: p}
									carry(kid, i+1, fn, 3)
									root.Kids = append(root.Kids, kid)
								}
								d := treeDoc(fn, root, 3, mvs, ntc, nil, "x0")
								d.Fields = append(d.Fields, Field{Name: "s", Type: ty})
								d.Model.MFs = append(d.Model.MFs, active("s")...)
								var rows []Row
								for _, x := range []int{1, 2, 3, 4, 9} {
									var val interface{} = fmt.Sprint(x)
									if ty != "string" {
										val = float64(x)
									}
									rows = append(rows, Row{"s": val})
								}
								c.Check(d, rows...)
							}
						}
					})
				})
			}
		}
	}
	// Constant predicates instead of fields: True and False nodes.
	for n := 2; n <= 5; n++ {
		shapes(n, func(sh []int) {
			vectors(n, 2, func(v []int) {
				for _, mvs := range mvsAll {
					c.Case(fmt.Sprintf("constant shape %v %v %s", sh, v, mvs), func() {
						for _, ntc := range ntcAll {
							root := treeOfShape(sh, "regression", 0, 0, false)
							i := 0
							var set func(n *Node)
							set = func(n *Node) {
								n.Pred = pFalse()
								if v[i] == 1 {
									n.Pred = pTrue()
								}
								i++
								for _, k := range n.Kids {
									set(k)
								}
							}
							set(root)
							c.Check(treeDoc("regression", root, 0, mvs, ntc, nil, "x0"), Row{}, Row{"x0": 1.0})
						}
					})
				}
			})
		})
	}
	// Wide nodes: exactly one true child, a true suffix, none.
	widths := []int{10, 33, 65, 130, 300}
	if c.mode == nil {
		widths = append(widths, 1100)
	}
	if c.Thorough {
		widths = append(widths, 17, 64, 128, 129, 256, 257, 512, 1025)
	}
	for _, w := range widths {
		for _, mvs := range mvsAll {
			for _, ntc := range ntcAll {
				for _, fn := range []string{"regression", "classification"} {
					c.Case(fmt.Sprintf("wide %d %s %s %s", w, mvs, ntc, fn), func() {
						root := &Node{ID: "r", Pred: pTrue()}
						carry(root, 0, fn, 1)
						for i := 1; i <= w; i++ {
							k := &Node{ID: fmt.Sprint(i), Pred: pC("and", pS("x0", "lessThan", num(float64(2*i))), pS("x1", "notEqual", num(float64(i))))}
							carry(k, i, fn, 0)
							root.Kids = append(root.Kids, k)
						}
						var rows []Row
						for i := 0; i <= w; i++ {
							rows = append(rows, Row{"x0": float64(2*i + 1), "x1": -1.0}, Row{"x0": float64(2 * i), "x1": float64(i)}, Row{"x0": float64(2*i) - 1, "x1": float64(i)})
						}
						c.Bound("width, swept", w)
						c.Check(treeDoc(fn, root, 0, mvs, ntc, nil, "x0", "x1"), rows...)
					})
				}
			}
		}
	}
	// Deep trees: every node has a leaf sibling before and after; the walk can leave at every depth.
	depths := []int{10, 30, 60, 300}
	if c.mode == nil {
		depths = append(depths, 1100)
	}
	if c.Thorough {
		depths = append(depths, 100, 200, 257, 500)
	}
	for _, dep := range depths {
		for _, mvs := range mvsAll {
			for _, ntc := range ntcAll {
				for _, fn := range []string{"regression", "classification"} {
					c.Case(fmt.Sprintf("deep %d %s %s %s", dep, mvs, ntc, fn), func() {
						root := &Node{ID: "r", Pred: pTrue()}
						carry(root, 0, fn, 1)
						cur := root
						for i := 1; i <= dep; i++ {
							l := &Node{ID: fmt.Sprint("l", i), Pred: pS("x1", "equal", num(float64(i)))}
							carry(l, 1000+2*i, fn, 1)
							k := &Node{ID: fmt.Sprint("k", i), Pred: pS("x0", "greaterOrEqual", num(float64(i)))}
							carry(k, i, fn, 1)
							r := &Node{ID: fmt.Sprint("r", i), Pred: pS("x2", "equal", num(float64(i)))}
							carry(r, 2001+2*i, fn, 1)
							cur.Kids = []*Node{l, k, r}
							cur = k
						}
						var rows []Row
						for _, i := range positions(dep + 2) {
							for j := i - 2; j <= i+2; j++ {
								rows = append(rows, Row{"x0": float64(i), "x1": float64(j), "x2": 0.0}, Row{"x0": float64(i), "x1": 0.0, "x2": float64(j)}, Row{"x0": float64(i), "x1": float64(j), "x2": float64(i + 1)})
							}
						}
						c.Bound("depth, swept", dep)
						c.Check(treeDoc(fn, root, 1, mvs, ntc, nil, "x0", "x1", "x2"), rows...)
					})
				}
			}
		}
	}
	// Bushy: complete trees of every arity; each leaf is reached by exactly its inputs.
	for arity := 2; arity <= 4; arity++ {
		maxD := map[int]int{2: 8, 3: 5, 4: 4}[arity]
		for dep := 1; dep <= maxD; dep++ {
			for _, mvs := range mvsAll {
				for _, fn := range []string{"regression", "classification"} {
					c.Case(fmt.Sprintf("bushy %d^%d %s %s", arity, dep, mvs, fn), func() {
						size := int(math.Pow(float64(arity), float64(dep)))
						id := 0
						var rec func(lo, n int, p *Pred) *Node
						rec = func(lo, n int, p *Pred) *Node {
							id++
							nd := &Node{ID: fmt.Sprint(id), Pred: p}
							carry(nd, id, fn, 3)
							if n > 1 {
								s := n / arity
								for j := 0; j < arity; j++ {
									q := pS("x0", "lessThan", num(float64(lo+(j+1)*s)))
									if j == arity-1 {
										q = pTrue()
									}
									nd.Kids = append(nd.Kids, rec(lo+j*s, s, q))
								}
							}
							return nd
						}
						root := rec(0, size, pTrue())
						var rows []Row
						for i := -1; i <= size; i++ {
							rows = append(rows, Row{"x0": float64(i)}, Row{"x0": float64(i) + 0.5})
						}
						c.Check(treeDoc(fn, root, 3, mvs, "", nil, "x0"), rows...)
					})
				}
			}
		}
	}
}
