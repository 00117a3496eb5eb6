package main

import "fmt"

func init() {
	register(&prop{id: "C05", level: "model_checking",
		what:   "one state per tree document (distribution x labels x notation x position of the scoring node); one transition per library call; one validated trace per row compared with the reference output (exact set of names, label of maximal probability, probabilities up to rounding). Complete enumeration of count/probability vectors over the stated alphabets up to the class bound; longer ones are swept.",
		assume: []string{"a node whose score contradicts its distribution, a class listed twice, distributions without records or without a positive probability are unspecified; any label among tied ones is accepted (C12 decides determinism)"},
		run:    runC05})
}

// scoringAt puts node n (predicate aside) where it becomes the scoring node.
func scoringAt(n *Node, place string, fn string) *Node {
	other := func(id string, i int, p *Pred) *Node {
		o := &Node{ID: id, Pred: p}
		carry(o, i, fn, 0)
		return o
	}
	n.ID = "s"
	switch place {
	case "root":
		n.Pred = pTrue()
		return n
	case "leaf":
		r := other("r", 3, pTrue())
		n.Pred = pTrue()
		r.Kids = []*Node{other("f", 4, pFalse()), n, other("t", 5, pTrue())}
		return r
	case "interior":
		r := other("r", 3, pTrue())
		n.Pred = pTrue()
		n.Kids = []*Node{other("f", 4, pFalse()), other("g", 5, pS("x0", "equal", "77"))}
		r.Kids = []*Node{n, other("t", 6, pTrue())}
		return r
	case "interior-root":
		n.Pred = pTrue()
		n.Kids = []*Node{other("f", 4, pFalse())}
		return n
	case "last":
		// an unknown below under lastPrediction
		n.Pred = pTrue()
		n.Kids = []*Node{other("u", 4, pS("x9", "equal", "1")), other("t", 5, pTrue())}
		return n
	case "default":
		r := other("r", 3, pTrue())
		n.Pred = pFalse()
		r.Kids = []*Node{other("u", 4, pS("x9", "equal", "1")), n}
		r.DefaultChild = "s"
		return r
	}
	panic(place)
}

var scorePlaces = []string{"root", "leaf", "interior", "interior-root", "last", "default"}

func c05doc(n *Node, place, fn, target string, values []string, wrap string) *Doc {
	mvs := map[string]string{"last": "lastPrediction", "default": "defaultChild"}[place]
	d := &Doc{Fields: append(dbl("x0", "x9"), Field{Name: target, Type: "string", OpType: "categorical", Values: values})}
	m := &Mdl{Kind: "tree", Func: fn, MVS: mvs, Root: scoringAt(n, place, fn)}
	m.MFs = append(active("x0", "x9"), MF{Name: target, Usage: "target"})
	d.Model = m
	if wrap != "" {
		d.Model = &Mdl{Kind: "mining", Func: fn, Method: wrap, MFs: m.MFs, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: m}}}
	}
	return d
}

// withConfidences repeats a check with declared confidences that agree with nothing else.
func withConfidences(f func()) {
	defer func() { confidences = nil }()
	for _, l := range [][]string{{"0.1", "0.9", "0.4", "1"}, {"0.95", "0", "0.96"}, {"1"}, {"0"}} {
		confidences = l
		f()
	}
}

func runC05(c *Ctx) {
	rows := []Row{{}, {"x0": 1.0}}
	labels := []string{"a", "b", "c", "d", "e", "f"}
	cls := "classification"
	// Record counts.
	counts := []float64{0, 1, 2, 5, 0.5, 1e6, 333}
	maxC := 3
	if c.Thorough {
		maxC = 5
	}
	for n := 1; n <= maxC; n++ {
		vectors(n, len(counts), func(v []int) {
			c.Case(fmt.Sprintf("counts %v", v), func() {
				c.Bound("classes, all vectors", n)
				for _, pl := range scorePlaces {
					for score := -1; score < n; score++ {
						if n > 3 && score > 0 {
							break
						}
						nd := &Node{RC: 7}
						for i, k := range v {
							nd.Dist = append(nd.Dist, SD{labels[i], counts[k], nil})
						}
						if score >= 0 {
							nd.Score = labels[score]
						}
						c.Check(c05doc(nd, pl, cls, "y", nil, ""), rows...)
						withConfidences(func() { c.Check(c05doc(nd, pl, cls, "y", nil, ""), rows...) })
					}
				}
			})
		})
	}
	// Probabilities, present for any subset of the classes, and contradicting the counts.
	probs := []float64{-1, 0, 0.25, 0.5, 1, 1e-9, 0.333}
	for n := 1; n <= maxC; n++ {
		vectors(n, len(probs), func(v []int) {
			c.Case(fmt.Sprintf("probabilities %v", v), func() {
				for _, pl := range scorePlaces {
					for cv := 0; cv < 3; cv++ {
						nd := &Node{RC: 7}
						for i, k := range v {
							s := SD{labels[i], []float64{1, float64(1 + i), float64(10 - 3*i)}[cv], nil}
							if probs[k] >= 0 {
								s.Prob = fp(probs[k])
							}
							nd.Dist = append(nd.Dist, s)
						}
						c.Check(c05doc(nd, pl, cls, "y", nil, ""), rows...)
						withConfidences(func() { c.Check(c05doc(nd, pl, cls, "y", nil, ""), rows...) })
					}
				}
			})
		})
	}
	// Labels and target names.
	strange := []string{"a", "A", "", " a", "a ", "a)", "(a", "probability(a)", "é", "日本語", "<&>\"'", "0", "1.0", "1e3", "true", "score", "x0", "y", "a b", "a,b", "%s", "%!d", "null", "a\tb"}
	for i, l := range strange {
		for j, l2 := range strange {
			if i == j {
				continue
			}
			c.Case(fmt.Sprintf("labels %q %q", l, l2), func() {
				for _, pl := range scorePlaces {
					c.Check(c05doc(&Node{Dist: []SD{{l, 3, nil}, {l2, 1, nil}}}, pl, cls, "y", nil, ""), rows...)
					c.Check(c05doc(&Node{Dist: []SD{{l, 3, fp(0.2)}, {l2, 1, fp(0.3)}, {"zz", 1, fp(0.5)}}}, pl, cls, "target", nil, ""), rows...)
					if l != "" {
						for _, vals := range [][]string{nil, {l}, {l2, l}, {l, l2, "zz"}, {"zz", "yy", l}, {l2}, {"zz", "yy", "xx"}} {
							c.Check(c05doc(&Node{Score: l, RC: 4}, pl, cls, "y", vals, ""), rows...)
						}
					}
				}
				for _, wrap := range []string{"selectFirst", "modelChain"} {
					c.Check(c05doc(&Node{Dist: []SD{{l, 3, nil}, {l2, 1, nil}}}, "leaf", cls, "y", nil, wrap), rows...)
				}
			})
		}
	}
	for _, tn := range strange {
		if tn == "x0" || tn == "" {
			continue
		}
		c.Case(fmt.Sprintf("target %q", tn), func() {
			for _, pl := range scorePlaces {
				c.Check(c05doc(&Node{Dist: []SD{{"q", 3, nil}, {"r", 1, nil}}}, pl, cls, tn, nil, ""), rows...)
				c.Check(c05doc(&Node{Score: "q"}, pl, cls, tn, []string{"p", "q"}, ""), rows...)
			}
		})
	}
	// Nodes that carry nothing predict nothing, whatever is above and beside them.
	for _, fn := range []string{cls, "regression"} {
		for rc := 0; rc < 2; rc++ {
			for vi, vals := range [][]string{nil, {"a"}, {"a", "b"}, {"", "a"}} {
				for _, pl := range scorePlaces {
					c.Case(fmt.Sprintf("nothing %s %d %d %s", fn, rc, vi, pl), func() {
						c.Check(c05doc(&Node{RC: float64(rc)}, pl, fn, "y", vals, ""), rows...)
					})
				}
			}
		}
	}
	// Many classes; the winner at every position.
	sizes := []int{7, 16, 33, 65, 130, 300}
	if c.mode == nil {
		sizes = append(sizes, 1100)
	}
	if c.Thorough {
		sizes = append(sizes, 64, 128, 129, 257, 500, 1030)
	}
	for _, n := range sizes {
		for win := 0; win < n; win++ {
			if n > 40 && win%7 != 0 && win < n-3 {
				continue
			}
			c.Case(fmt.Sprintf("%d classes, winner %d", n, win), func() {
				c.Bound("classes, swept", n)
				for _, pl := range scorePlaces {
					for kind := 0; kind < 2; kind++ {
						nd := &Node{RC: 9}
						var vals []string
						for i := 0; i < n; i++ {
							s := SD{fmt.Sprint("c", i), float64(i%5 + 1), nil}
							if i == win {
								s.RC = 6
							}
							if kind == 1 {
								s.Prob = fp(s.RC / float64(7*n))
								s.RC = float64(n - i)
							}
							nd.Dist = append(nd.Dist, s)
							vals = append(vals, s.Value)
						}
						c.Check(c05doc(nd, pl, cls, "y", nil, ""), rows...)
						if kind == 0 {
							c.Check(c05doc(&Node{Score: vals[win], RC: 3}, pl, cls, "y", vals, ""), rows...)
						}
					}
				}
			})
		}
	}
	// Numbers in every notation, in regression scores, counts and probabilities.
	notes := map[string]float64{"0": 0, "-0": 0, "1": 1, "01": 1, "1.": 1, "+1": 1, "1.0": 1, "10e-1": 1, "0.1E1": 1, ".5": 0.5, "-.5": -0.5, "-1.25": -1.25, "1e3": 1000, "1E+3": 1000, "1e-3": 0.001,
		"123456789.123456789": 123456789.123456789, "1e300": 1e300, "-1e300": -1e300, "5e-324": 5e-324, "0.1": 0.1, "0.30000000000000004": 0.30000000000000004, "9007199254740993": 9007199254740992, "16777217": 16777217, "3.4028236e38": 3.4028236e38, "-1": -1, "1e-46": 1e-46}
	var texts []string
	for k := range notes {
		texts = append(texts, k)
	}
	sortStrings(texts)
	for _, tx := range texts {
		c.Case("notation "+tx, func() {
			defer func() { written = nil }()
			v := notes[tx]
			for _, pl := range scorePlaces {
				nd := &Node{Score: tx}
				c.Check(c05doc(nd, pl, "regression", "y", nil, ""), rows...)
				for _, wrap := range []string{"selectFirst", "modelChain"} {
					c.Check(c05doc(&Node{Score: tx}, pl, "regression", "y", nil, wrap), rows...)
				}
				if v > 0 && v < 1e100 && v > 1e-100 {
					written = notation{v: tx}
					nd = &Node{RC: v, Dist: []SD{{"a", v, nil}, {"b", 3 * v, nil}, {"c", 2, nil}}}
					c.Check(c05doc(nd, pl, cls, "y", nil, ""), rows...)
					nd = &Node{RC: v, Dist: []SD{{"a", 1, fp(v)}, {"b", 1, fp(0.25)}, {"c", 2, nil}}}
					c.Check(c05doc(nd, pl, cls, "y", nil, ""), rows...)
					written = nil
				}
			}
		})
	}
	// Regression trees: every node has its own score; record counts and identifiers do not matter.
	for i := -3; i <= 3; i++ {
		for rc := 0; rc < 3; rc++ {
			c.Case(fmt.Sprintf("regression %d %d", i, rc), func() {
				for _, pl := range scorePlaces {
					c.Check(c05doc(&Node{Score: num(float64(i) / 2), RC: float64(rc)}, pl, "regression", "y", nil, ""), rows...)
				}
			})
		}
	}
	// The output is that of the scoring node only, whatever the classes of its ancestors and siblings.
	sets := [][]SD{{{"a", 1, nil}}, {{"a", 1, nil}, {"b", 2, nil}}, {{"b", 1, nil}, {"c", 2, nil}, {"d", 4, nil}}, {{"c", 1, fp(0.5)}, {"a", 1, fp(0.25)}}, nil}
	vectors(4, len(sets), func(v []int) {
		c.Case(fmt.Sprintf("class sets %v", v), func() {
			mk := func(i int, p *Pred) *Node {
				n := &Node{ID: fmt.Sprint(i), Pred: p, Dist: sets[v[i]], RC: 3}
				if sets[v[i]] == nil {
					n.Score = "b"
				}
				return n
			}
			r := mk(0, pTrue())
			k := mk(1, pS("x0", "equal", "1"))
			k.Kids = []*Node{mk(2, pS("x9", "equal", "1"))}
			r.Kids = []*Node{k, mk(3, pS("x9", "equal", "2"))}
			for _, vals := range [][]string{nil, {"a", "b", "c", "d"}} {
				d := &Doc{Fields: append(dbl("x0", "x9"), Field{Name: "y", Type: "string", OpType: "categorical", Values: vals})}
				d.Model = &Mdl{Kind: "tree", Func: cls, Root: r, MFs: append(active("x0", "x9"), MF{Name: "y", Usage: "target"})}
				c.Check(d, Row{"x0": 0.0}, Row{"x0": 1.0}, Row{"x0": 1.0, "x9": 1.0}, Row{"x0": 0.0, "x9": 2.0}, Row{"x0": 1.0, "x9": 2.0})
			}
		})
	})
	// The target may be declared anywhere among the mining fields and dictionary fields.
	perms(4, func(p []int) {
		c.Case(fmt.Sprintf("field order %v", p), func() {
			fs := []Field{{Name: "x0", Type: "double"}, {Name: "x9", Type: "double"}, {Name: "y", Type: "string", Values: []string{"a", "b"}}, {Name: "z", Type: "string", Values: []string{"b", "q"}}}
			mf := []MF{{Name: "x0"}, {Name: "x9", Usage: "active"}, {Name: "y", Usage: "target"}, {Name: "z", Usage: "supplementary"}}
			d := &Doc{}
			m := &Mdl{Kind: "tree", Func: cls, Root: &Node{ID: "r", Pred: pTrue(), Score: "b", RC: 3}}
			for _, i := range p {
				d.Fields = append(d.Fields, fs[i])
				m.MFs = append(m.MFs, mf[3-i])
			}
			d.Model = m
			c.Check(d, rows...)
		})
	})
	// What names the predicted field: usage target, or predicted as documents before PMML 4.2 have it.
	usages := []string{"target", "predicted", "active", "supplementary", "group", "order", ""}
	vectors(3, len(usages), func(v []int) {
		c.Case(fmt.Sprintf("usages %v", v), func() {
			n := map[string]int{}
			for _, u := range v {
				n[usages[u]]++
			}
			if n["target"] > 1 || n["target"] == 0 && n["predicted"] != 1 {
				return
			}
			for _, vals := range [][]string{nil, {"a", "b", "c"}} {
				for kind := 0; kind < 2; kind++ {
					d := &Doc{}
					m := &Mdl{Kind: "tree", Func: cls, Root: &Node{ID: "r", Pred: pTrue(), Score: "b", RC: 3, Kids: []*Node{{ID: "k", Pred: pS("x0", "equal", "1"), Score: "c"}}}}
					if kind == 1 {
						m.Root.Dist = []SD{{"a", 1, nil}, {"b", 3, nil}}
					}
					for i, name := range []string{"y", "z", "w"} {
						d.Fields = append(d.Fields, Field{Name: name, Type: "string", OpType: "categorical", Values: vals})
						m.MFs = append(m.MFs, MF{Name: name, Usage: usages[v[i]]})
					}
					d.Fields = append(d.Fields, dbl("x0")...)
					m.MFs = append(m.MFs, MF{Name: "x0"})
					d.Model = m
					c.Check(d, Row{"x0": 0.0}, Row{"x0": 1.0}, Row{})
				}
			}
		})
	})
}
