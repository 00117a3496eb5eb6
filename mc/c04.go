package main

import "fmt"

func init() {
	register(&prop{id: "C04", level: "model_checking",
		what: "one state per tree document (shape x missing-value strategy x noTrueChild strategy x default-child choice x penalty x score carrier x function); one transition per library call; one validated trace per assignment of true/false/unknown to the node predicates, compared with the reference walk. Every ordered tree up to the node bound with every assignment is visited; wide and deep ones are swept.",
		assume: []string{"unspecified: an unknown root predicate under the pooling and default-child strategies, pooling without records, a missing default child, penalty 0 (counted in the evidence)",
			"node predicates are unary tests of distinct fields (C01 and C02 decide predicates)"},
		run: runC04})
}

// distinct class sets per node, in different orders
func carryMixed(n *Node, i int) {
	n.RC = float64(7 + 5*i)
	cl := []string{"a", "b", "c", "d"}
	n.Dist = nil
	for j := 0; j <= 1+i%3; j++ {
		n.Dist = append(n.Dist, SD{cl[(i+j)%4], float64(3 + 2*i + 7*j*(i%2+1)), nil})
	}
	if i%3 == 1 {
		n.Score = ""
		t := 0.0
		for _, s := range n.Dist {
			t += s.RC
		}
		n.RC = t
	}
}

// fractional makes the weights of a node small and not whole, as weighted training leaves them.
func fractional(n *Node, i int) {
	n.RC = n.RC*0.37 + 0.4*float64(i%3) - 2
	if n.RC < 0 {
		n.RC = 0.3
	}
	t := 0.0
	for j := range n.Dist {
		n.Dist[j].RC = n.Dist[j].RC*0.29 + 0.07
		t += n.Dist[j].RC
	}
	if n.Score == "" {
		n.RC = t
	}
}

func eachNode(n *Node, f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		eachNode(k, f)
	}
}

// defaultChoices calls f with every way to give each interior node one of its children as default.
func defaultChoices(root *Node, f func(string)) {
	var inner []*Node
	eachNode(root, func(n *Node) {
		if len(n.Kids) > 0 {
			inner = append(inner, n)
		}
	})
	var rec func(i int, s string)
	rec = func(i int, s string) {
		if i == len(inner) {
			f(s)
			return
		}
		for j, k := range inner[i].Kids {
			inner[i].DefaultChild = k.ID
			rec(i+1, s+fmt.Sprint(j))
		}
	}
	rec(0, "")
}

func rows3from1(n int) []Row {
	var rows []Row
	for _, r := range rows3(n - 1) {
		q := Row{"x0": 1.0}
		for i := 0; i < n-1; i++ {
			if v, ok := r[leafName(i)]; ok {
				q[leafName(i+1)] = v
			}
		}
		rows = append(rows, q)
	}
	return rows
}

// rows3From gives the n fields from the given one on every combination of true, false and missing.
func rows3From(from, n int) []Row {
	var rows []Row
	for _, r := range rows3(n) {
		q := Row{}
		for i := 0; i < n; i++ {
			if v, ok := r[leafName(i)]; ok {
				q[leafName(i+from)] = v
			}
		}
		rows = append(rows, q)
	}
	return rows
}

func runC04(c *Ctx) {
	maxNodes := 6
	if c.Thorough {
		maxNodes = 8
	}
	// Siblings that ask something next to siblings that ask nothing.
	for n := 2; n <= 4; n++ {
		vectors(n, 3, func(v []int) {
			for _, mvs := range mvsAll {
				c.Case(fmt.Sprintf("siblings %v %s", v, mvs), func() {
					for _, deep := range []bool{false, true} {
						for _, fn := range []string{"regression", "classification"} {
							for _, ntc := range ntcAll {
								sh := []int{n}
								if deep {
									sh = []int{1, n}
								}
								for range v {
									sh = append(sh, 0)
								}
								root := treeOfShape(sh, fn, 0, 0, true)
								at := root
								if deep {
									at = root.Kids[0]
									at.Pred = pTrue()
								}
								for i, k := range v {
									switch k {
									case 1:
										at.Kids[i].Pred = pTrue()
									case 2:
										at.Kids[i].Pred = pFalse()
									}
								}
								c.Check(treeDoc(fn, root, 0, mvs, ntc, nil, leafNames(len(sh))...), rows3From(len(sh)-n, n)...)
							}
						}
					}
				})
			}
		})
	}
	for n := 2; n <= maxNodes; n++ {
		rows := rows3from1(n)
		if n <= 4 {
			rows = rows3(n)
		}
		shapes(n, func(sh []int) {
			c.Bound("nodes, all shapes", n)
			for _, mvs := range mvsAll {
				for _, ntc := range ntcAll {
					for _, fn := range []string{"regression", "classification"} {
						c.Case(fmt.Sprintf("shape %v %s %s %s", sh, mvs, ntc, fn), func() {
							carriers := []int{0, 1, 2, 3, 4, 5}
							if fn == "regression" {
								carriers = carriers[:1]
							} else if n >= 6 {
								carriers = []int{4, 5}
								if n == 6 && c.Thorough {
									carriers = []int{0, 3, 4, 5}
								}
							}
							for _, ca := range carriers {
								root := treeOfShape(sh, fn, ca, 0, false)
								if ca >= 4 {
									i := 0
									eachNode(root, func(n *Node) {
										carryMixed(n, i)
										if ca == 5 {
											fractional(n, i)
										}
										i++
									})
								}
								if mvs != "defaultChild" {
									pen := fp(0.8)
									if ca%2 == 0 {
										pen = nil
									}
									c.Check(treeDoc(fn, root, ca, mvs, ntc, pen, leafNames(n)...), rows...)
									continue
								}
								defaultChoices(root, func(ch string) {
									pens := []*float64{nil, fp(0.7)}
									if n <= 4 {
										pens = append(pens, fp(1), fp(2))
									} else if n >= 7 {
										pens = pens[1:]
									}
									for _, pen := range pens {
										c.Check(treeDoc(fn, root, ca, mvs, ntc, pen, leafNames(n)...), rows...)
									}
								})
							}
						})
					}
				}
			}
		})
	}
	// Every combination of record counts, small and large, of two siblings with two classes each.
	counts := []float64{0, 0.25, 0.5, 1, 1.5, 3, 1e6, 1e-3}
	for _, mvs := range []string{"weightedConfidence", "aggregateNodes"} {
		vectors(4, len(counts), func(v []int) {
			c.Case(fmt.Sprintf("counts %s %v", mvs, v), func() {
				c.Bound("record counts of two siblings, all vectors", len(counts))
				for kind := 0; kind < 4; kind++ {
					kid := func(i int) *Node {
						n := &Node{ID: fmt.Sprint(i), Score: []string{"a", "b"}[i], Pred: leafPred(i, i), RC: counts[v[i]] + counts[v[2+i]], Dist: []SD{{"a", counts[v[i]], nil}, {"b", counts[v[2+i]], nil}}}
						switch kind {
						case 1: // the weights are those of the nodes, not of the classes
							n.RC = counts[v[1-i]]
						case 2: // other classes, in another order
							n.Dist[i].Value = "c"
						case 3: // a class each
							n.Dist = n.Dist[i : i+1]
						}
						return n
					}
					root := &Node{ID: "r", Score: "a", RC: 1, Pred: pTrue(), Kids: []*Node{kid(0), kid(1)}}
					d := treeDoc("classification", root, 0, mvs, "", nil, leafNames(2)...)
					c.Check(d, rows3(2)...)
					if kind == 0 {
						withConfidences(func() { c.Check(d, Row{}) })
					}
				}
			})
		})
	}
	// Nodes without a prediction of their own: every subset of the nodes.
	for n := 2; n <= 4; n++ {
		rows := rows3from1(n)
		shapes(n, func(sh []int) {
			vectors(n, 2, func(bare []int) {
				c.Bound("nodes, every subset without a score", n)
				for _, mvs := range mvsAll[1:] {
					for _, ntc := range ntcAll[1:] {
						c.Case(fmt.Sprintf("bare %v %v %s %s", sh, bare, mvs, ntc), func() {
							for _, ca := range []int{-1, 0, 2} {
								fn := "classification"
								if ca < 0 {
									fn = "regression"
								}
								root := treeOfShape(sh, fn, ca, 0, false)
								i := 0
								eachNode(root, func(n *Node) {
									if bare[i] == 1 {
										n.Score, n.Dist = "", nil
									}
									i++
								})
								check := func(string) { c.Check(treeDoc(fn, root, ca, mvs, ntc, fp(0.7), leafNames(n)...), rows...) }
								if mvs == "defaultChild" {
									defaultChoices(root, check)
								} else {
									check("")
								}
							}
						})
					}
				}
			})
		})
	}
	// Binary splits on one field per level: the usual trees, with any subset of the fields missing.
	for dep := 1; dep <= 5; dep++ {
		for _, mvs := range mvsAll {
			for _, ntc := range ntcAll {
				for _, fn := range []string{"regression", "classification"} {
					for _, dflt := range []int{0, 1, 2} {
						if mvs != "defaultChild" && dflt > 0 {
							continue
						}
						c.Case(fmt.Sprintf("binary %d %s %s %s default %d", dep, mvs, ntc, fn, dflt), func() {
							i := 0
							var rec func(l int, p *Pred) *Node
							rec = func(l int, p *Pred) *Node {
								nd := &Node{ID: fmt.Sprint("n", i), Pred: p}
								carry(nd, i, fn, 0)
								i++
								if l < dep {
									nd.Kids = []*Node{rec(l+1, pS(leafName(l), "lessThan", "0.5")), rec(l+1, pS(leafName(l), "greaterOrEqual", "0.5"))}
									which := dflt
									if dflt == 2 {
										which = i % 2
									}
									nd.DefaultChild = nd.Kids[which].ID
								}
								return nd
							}
							root := rec(0, pTrue())
							c.Check(treeDoc(fn, root, 0, mvs, ntc, fp(0.9), leafNames(dep)...), rows3(dep)...)
						})
					}
				}
			}
		}
	}
	// Wide: one unknown, one true, in every order; the rest false or unknown.
	widths := []int{9, 33, 70, 300}
	if c.Thorough {
		widths = append(widths, 17, 64, 65, 128, 129, 200, 257, 520)
	}
	for _, w := range widths {
		for _, mvs := range mvsAll {
			for _, ntc := range ntcAll {
				for _, fn := range []string{"regression", "classification"} {
					c.Case(fmt.Sprintf("wide %d %s %s %s", w, mvs, ntc, fn), func() {
						root := &Node{ID: "r", Pred: pTrue()}
						carry(root, 0, fn, 0)
						for i := 1; i <= w; i++ {
							k := &Node{ID: fmt.Sprint("k", i), Pred: leafPred(0, i)}
							if fn == "regression" {
								carry(k, i, fn, 0)
							} else {
								carryMixed(k, i)
							}
							root.Kids = append(root.Kids, k)
						}
						root.DefaultChild = fmt.Sprint("k", w*2/3)
						var rows []Row
						mk := func(rest, a, va, b, vb int) {
							r := Row{}
							for i := 1; i <= w; i++ {
								v := rest
								if i == a {
									v = va
								} else if i == b {
									v = vb
								}
								if v < 2 {
									r[leafName(i)] = float64(v)
								}
							}
							rows = append(rows, r)
						}
						step := 1
						if w > 10 {
							step = w / 8
						}
						for _, a := range positions(w + 1)[1:] {
							mk(0, a, 2, 0, 0)
							mk(2, a, 1, 0, 0)
							mk(2, a, 0, 0, 0)
							for b := 1; b <= w; b += step {
								mk(0, a, 2, b, 1)
								mk(0, a, 2, b, 2)
								mk(2, a, 1, b, 0)
							}
						}
						c.Bound("width, swept", w)
						c.Check(treeDoc(fn, root, 0, mvs, ntc, fp(0.5), append(leafNames(w+1), "x0")[1:]...), rows...)
					})
				}
			}
		}
	}
	// Very many siblings that carry many classes each.
	for _, w := range []int{600, 1100} {
		for _, mvs := range []string{"weightedConfidence", "aggregateNodes", "defaultChild"} {
			for nc := 1; nc <= 3; nc += 2 {
				c.Case(fmt.Sprintf("wide %d %s, %d classes each", w, mvs, nc), func() {
					root := &Node{ID: "r", Pred: pTrue(), DefaultChild: fmt.Sprint("k", w-1)}
					for i := 1; i <= w; i++ {
						k := &Node{ID: fmt.Sprint("k", i), RC: float64(1 + i%7), Pred: pS("x0", "lessThan", num(float64(2*i)))}
						for j := 0; j < nc; j++ {
							k.Dist = append(k.Dist, SD{fmt.Sprint("c", (i*i+j)%11), float64(1 + (i+3*j)%5), nil})
						}
						if i%5 == 0 {
							k.Pred = pS("x1", "equal", num(float64(i)))
						}
						root.Kids = append(root.Kids, k)
					}
					c.Bound("width, swept", w)
					c.Check(treeDoc("classification", root, 0, mvs, "", fp(0.5), "x0", "x1"), Row{}, Row{"x0": float64(w)}, Row{"x1": 5.0}, Row{"x1": float64(w)}, Row{"x0": 1e6}, Row{"x1": 0.0}, Row{"x0": 1e6, "x1": 500.0})
				})
			}
		}
	}
	// Deep: chains in which every level can be true, false or unknown; repeated defaults, nested pooling.
	depths := []int{8, 20, 40, 140}
	if c.Thorough {
		depths = append(depths, 12, 64, 100, 300)
	}
	for _, dep := range depths {
		for _, mvs := range mvsAll {
			for _, ntc := range ntcAll {
				for _, fn := range []string{"regression", "classification"} {
					for side := 0; side < 2; side++ {
						c.Case(fmt.Sprintf("deep %d %s %s %s side %d", dep, mvs, ntc, fn, side), func() {
							root := &Node{ID: "r", Pred: pTrue()}
							carry(root, 0, fn, 0)
							cur := root
							for i := 1; i <= dep; i++ {
								k := &Node{ID: fmt.Sprint("k", i), Pred: leafPred(0, i)}
								l := &Node{ID: fmt.Sprint("l", i), Pred: pC("xor", leafPred(0, i), pTrue())}
								carry(k, i, fn, 0)
								carry(l, 2*i+1, fn, 1)
								l.RC = float64(i % 3)
								cur.Kids = []*Node{k, l}
								if side == 1 {
									cur.Kids = []*Node{l, k}
								}
								cur.DefaultChild = k.ID
								cur = k
							}
							var rows []Row
							mk := func(f func(i int) int) {
								r := Row{}
								for i := 1; i <= dep; i++ {
									if v := f(i); v < 2 {
										r[leafName(i)] = float64(v)
									}
								}
								rows = append(rows, r)
							}
							for _, a := range positions(dep + 2)[1:] {
								for v := 0; v < 3; v++ {
									mk(func(i int) int {
										if i == a {
											return v
										}
										return 1
									})
									mk(func(i int) int {
										if i >= a {
											return v
										}
										return 1
									})
									if dep <= 20 || mvs == "defaultChild" {
										mk(func(i int) int {
											if i == a {
												return v
											}
											return 2
										})
										mk(func(i int) int {
											if i < a {
												return 2
											}
											return v
										})
									}
									for b := a + 1; b <= dep; b += 1 + dep/10 {
										mk(func(i int) int {
											if i == a || i == b {
												return 2
											}
											return 1
										})
									}
								}
							}
							c.Bound("depth, swept", dep)
							c.Check(treeDoc(fn, root, 0, mvs, ntc, fp(0.95), append(leafNames(dep+1), "x0")[1:]...), rows...)
						})
					}
				}
			}
		}
	}
}
