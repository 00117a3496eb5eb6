package main

import (
	"fmt"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func init() {
	register(&prop{id: "C22", level: "model_checking",
		what:   "one state per document with several models (a sequence of models over the zoo and over the clashing declarations of C21, with and without models of unsupported classes in between, and an order of building them); one transition per decode, build, score or verify call; one validated trace per model and row whose outcome was bit-identical to that of the document which contains this model alone.",
		assume: []string{"the documents with one model are right (other checks decide that)"},
		run:    runC22})
}

// soleModel is what a document with one model does.
type soleModel struct {
	built  bool
	res    []Res
	verify bool
}

func soleOf(c *Ctx, x string, rows []Row) *soleModel {
	s := &soleModel{}
	c.curDetail = x
	m, err := build(x)
	c.r.Transitions++
	if err != nil {
		return s
	}
	s.built = true
	for _, r := range rows {
		s.res = append(s.res, score(m, r))
		c.r.Transitions++
	}
	s.verify = m.Verify() == nil
	return s
}

// supportedModels lists the models of the classes the library scores, in document order.
func supportedModels(p *models.PMML) []int {
	var l []int
	for i, m := range p.Models {
		switch m.(type) {
		case *models.TreeModel, *models.RegressionModel, *models.MiningModel:
			l = append(l, i)
		}
	}
	return l
}

// together compares every model of a document with what it does alone; orders are of building.
func (c *Ctx) together(x string, sole []*soleModel, rows []Row, orders [][]int) {
	c.curDetail = x
	for _, order := range orders {
		c.r.States++
		p, err := decode(x)
		c.r.Transitions++
		if err != nil {
			c.Fail(x, "the document is refused: %v", err)
		}
		at := supportedModels(p)
		if len(at) != len(sole) {
			c.Fail(x, "%d models decoded, %d written", len(at), len(sole))
		}
		ms := make([]evaluation.Model, len(sole))
		compare := func(when string) {
			for ri, r := range rows {
				obj := dataRow(r)
				for _, i := range order {
					if ms[i] == nil {
						continue
					}
					got := toRes(ms[i].Evaluate(obj))
					c.r.Transitions++
					c.r.Validated++
					if !identical(got, sole[i].res[ri]) {
						c.Fail(x+"\n"+r.String(), "%s, models built in order %v: model %d gives %v for row %v, but %v in a document of its own", when, order, i, got, r, sole[i].res[ri])
					}
				}
			}
			for _, i := range order {
				if ms[i] != nil && (ms[i].Verify() == nil) != sole[i].verify {
					c.Fail(x, "%s, models built in order %v: model %d verifies: %v, in a document of its own: %v", when, order, i, !sole[i].verify, sole[i].verify)
				}
			}
		}
		for _, i := range order {
			m, err := modelAt(p, at[i])
			c.r.Transitions++
			if (err == nil) != sole[i].built {
				c.Fail(x, "models built in order %v: model %d is refused: %v, in a document of its own: %v", order, i, err, !sole[i].built)
			}
			if err == nil {
				ms[i] = m
			}
		}
		compare("after building all")
		for k := len(order) - 1; k >= 0; k-- {
			i := order[k]
			m, err := modelAt(p, at[i])
			c.r.Transitions++
			if (err == nil) != sole[i].built {
				c.Fail(x, "model %d, built again: %v", i, err)
			}
			if err == nil {
				ms[i] = m
			}
		}
		compare("after building all again")
		c.Outcome(fmt.Sprintf("%d models", len(sole)))
	}
	c.Sample(map[string]interface{}{"case": c.name, "document": x})
}

func allOrders(n int) [][]int {
	var o [][]int
	if n <= 3 {
		perms(n, func(p []int) { o = append(o, p) })
		return o
	}
	f, b := make([]int, n), make([]int, n)
	for i := range f {
		f[i], b[i] = i, n-1-i
	}
	return [][]int{f, b}
}

func runC22(c *Ctx) {
	items := zoo()
	// one dictionary for all of the zoo
	var td []DF
	have := map[string]bool{}
	for _, it := range items {
		for _, df := range it.doc.TD {
			if !have[df.Name] {
				have[df.Name] = true
				td = append(td, df)
			}
		}
	}
	rows := zooRows()
	memo := map[string]*soleModel{}
	sole := func(key string, d *Doc, rows []Row) *soleModel {
		if memo[key] == nil {
			memo[key] = soleOf(c, d.XML(), rows)
		}
		return memo[key]
	}
	doc := func(ms ...*Mdl) *Doc { return &Doc{Fields: zooFields, TD: td, Model: ms[0], More: ms[1:]} }
	var vs []*Mdl
	for i := range items {
		vs = append(vs, items[i].verification().Model)
		if i%4 == 0 {
			if b := breakVerification(&Doc{Model: vs[len(vs)-1]}); b != nil {
				vs = append(vs, b.Model)
			}
		}
	}
	n := 2
	if c.Thorough {
		n = 3
	}
	for k := 2; k <= n; k++ {
		vectors(k, len(vs), func(v []int) {
			c.Case(fmt.Sprintf("zoo %v", v), func() {
				var ms []*Mdl
				var ss []*soleModel
				for _, i := range v {
					ms = append(ms, vs[i])
					ss = append(ss, sole(fmt.Sprint("zoo", i), doc(vs[i]), rows))
				}
				c.Bound("models of the zoo in one document, all sequences", k)
				c.together(doc(ms...).XML(), ss, rows, allOrders(k))
			})
		})
	}
	// The models' names say nothing.
	for naming := 0; naming < 3; naming++ {
		vectors(2, len(vs), func(v []int) {
			c.Case(fmt.Sprintf("zoo %v named %d", v, naming), func() {
				var ms []*Mdl
				var ss []*soleModel
				at := 0
				t := &transform{at: &at, named: func(at int) string {
					return []string{"m", fmt.Sprint("m", at%2), []string{"m", "", "M"}[at%3]}[naming]
				}}
				for _, i := range v {
					ms = append(ms, t.model(vs[i]))
					ss = append(ss, sole(fmt.Sprint("zoo", i), doc(vs[i]), rows))
				}
				c.together(doc(ms...).XML(), ss, rows, allOrders(2))
			})
		})
	}
	// Models whose declarations clash.
	kinds := c21Kinds()
	crows := c21Rows()
	n = 3
	for di, base := range c21Docs() {
		for k := 2; k <= n; k++ {
			vectors(k, len(kinds), func(v []int) {
				c.Case(fmt.Sprintf("clash %d %v", di, v), func() {
					d := *base
					d.More = nil
					var ss []*soleModel
					for at, i := range v {
						one := *base
						m := kinds[i](float64(at) * 128)
						one.Model = m
						ss = append(ss, sole(fmt.Sprintf("clash %d %d %d", di, i, at), &one, crows))
						if at == 0 {
							d.Model = m
						} else {
							d.More = append(d.More, m)
						}
					}
					orders := allOrders(k)
					if k > 2 && !c.Thorough {
						orders = [][]int{{0, 1, 2}, {2, 0, 1}}
					}
					c.Bound("models with clashing declarations in one document, all sequences", k)
					c.together(d.XML(), ss, crows, orders)
				})
			})
		}
	}
	// Models that predict one field of whose values the dictionary says nothing, something or everything.
	labels := [][]string{{"a", "b"}, {"b", "c"}, {"d", "e"}}
	var preds []func(k int) *Mdl
	for _, l := range labels {
		preds = append(preds, func(k int) *Mdl { // scores only
			return &Mdl{Kind: "tree", Func: "classification", MVS: []string{"lastPrediction", "aggregateNodes", "weightedConfidence"}[k%3], Root: &Node{ID: "r", Score: l[0], Pred: pTrue(), Kids: []*Node{{ID: "1", Score: l[1], Pred: pS("x", "greaterThan", num(float64(k)))}}}}
		}, func(k int) *Mdl { // distributions
			return &Mdl{Kind: "tree", Func: "classification", MVS: "weightedConfidence", Root: &Node{ID: "r", Score: l[1], Pred: pTrue(), Dist: []SD{{l[0], 1, nil}, {l[1], 2, nil}}, Kids: []*Node{
				{ID: "1", Score: l[0], Pred: pS("x", "greaterThan", num(float64(k))), Dist: []SD{{l[0], 3, nil}, {l[1], 2, nil}}}, {ID: "2", Score: l[1], Pred: pS("x", "lessThan", "0"), Dist: []SD{{l[1], 1, nil}}}}}}
		})
	}
	preds = append(preds, func(k int) *Mdl {
		return &Mdl{Kind: "reg", Func: "classification", Norm: "softmax", Tables: []Table{{Category: "a", Nums: []NumPred{{"x", 1, 0}}}, {Category: "c", Intercept: float64(k)}}, Out: []OutF{{"pa", "probability", "a"}, {"pc", "probability", "c"}}}
	}, func(k int) *Mdl {
		return &Mdl{Kind: "mining", Func: "classification", Method: "average", Out: []OutF{{"pa", "probability", "a"}, {"pb", "probability", "b"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: preds[0](k)}, {ID: "2", Pred: pTrue(), Model: preds[1](k)}}}
	}, func(k int) *Mdl {
		return &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "1", Pred: pTrue(), Kids: []*Node{{ID: "1", Score: "2", Pred: pS("x", "greaterThan", num(float64(k)))}, {ID: "2", Score: "3", Pred: pS("y", "isMissing", "")}}}}
	})
	prows := []Row{{"x": -1.0}, {"x": 0.5}, {"x": 1.5}, {"x": 9.0}, {}, {"x": 0.5, "y": "b"}, {"y": "d"}}
	for _, declared := range [][]string{nil, {"a"}, {"c", "b"}, {"a", "b", "c", "d", "e"}} {
		for k := 2; k <= 3; k++ {
			vectors(k, len(preds), func(v []int) {
				c.Case(fmt.Sprintf("predicting one field %v %v", declared, v), func() {
					d := &Doc{Fields: append(dbl("x"), Field{Name: "y", Type: "string", OpType: "categorical", Values: declared})}
					var ss []*soleModel
					for at, i := range v {
						m := preds[i](at)
						m.MFs = append(active("x"), MF{Name: "y", Usage: "target"})
						one := *d
						one.Model, one.More = m, nil
						ss = append(ss, sole(fmt.Sprintf("predicting %v %d %d", declared, i, at), &one, prows))
						if at == 0 {
							d.Model = m
						} else {
							d.More = append(d.More, m)
						}
					}
					orders := allOrders(k)
					if k > 2 && !c.Thorough {
						orders = [][]int{{0, 1, 2}, {2, 0, 1}}
					}
					c.together(d.XML(), ss, prows, orders)
				})
			})
		}
	}
	// Models of classes the library does not score, before, between and after.
	for ci, class := range modelClasses {
		for i := range vs {
			for pos := 0; pos < 3; pos++ {
				for form := 0; form < 2; form++ {
					c.Case(fmt.Sprintf("%s %d with %d at %d", class, form, i, pos), func() {
						j := (i + ci + 1) % len(vs)
						ss := []*soleModel{sole(fmt.Sprint("zoo", i), doc(vs[i]), rows), sole(fmt.Sprint("zoo", j), doc(vs[j]), rows)}
						root := parseX(doc(vs[i], vs[j]).XML())
						t := foreignModel(class, form)
						root.insert(len(root.kids)-2+pos, rawX(t))
						c.together(root.String(), ss, rows, [][]int{{0, 1}, {1, 0}})
					})
				}
			}
		}
	}
	// Models beside copies that differ in one place; judged by the reference, for a cache may serve the document that
	// contains one of them alone, too.
	near := nearItems()
	for zi := range near {
		it := &near[zi]
		if it.doc.More != nil {
			continue
		}
		nearPairs(it, func(name, what string, a, b *Mdl, rows []Row) {
			c.Case(name, func() {
				c.Outcome("near copy: " + strings.Fields(what)[0])
				for _, pair := range [][]*Mdl{{a, b}, {b, a}} {
					d := it.doc.withModels(pair...)
					x := d.XML()
					c.curDetail = x
					for _, order := range [][]int{{0, 1}, {1, 0}} {
						c.r.States++
						p, err := decode(x)
						if err != nil {
							c.Fail(x, "%s: the document is refused: %v", what, err)
						}
						ms := make([]evaluation.Model, 2)
						for _, i := range order {
							if ms[i], err = modelAt(p, i); err != nil {
								ms[i] = nil
							}
							c.r.Transitions++
						}
						for _, i := range order {
							if ms[i] == nil {
								m, err := build(it.doc.withModels(pair[i]).XML())
								if err == nil && m != nil {
									c.Fail(x, "%s: model %d is refused, but not in a document of its own", what, i)
								}
								continue
							}
							for _, r := range rows {
								c.r.Transitions++
								c.refRow(score(ms[i], r), it.doc.withModels(pair[i]), r, x, fmt.Sprintf("%s, models built in order %v, model %d", what, order, i))
							}
						}
					}
				}
			})
		})
	}
	// Long documents.
	sizes := []int{10, 40, 130, 300}
	if c.mode == nil {
		sizes = append(sizes, 1100)
	}
	if c.Thorough {
		sizes = append(sizes, 257, 600)
	}
	for _, n := range sizes {
		for step := 1; step <= 3; step++ {
			c.Case(fmt.Sprintf("%d models %d", n, step), func() {
				var ms []*Mdl
				var ss []*soleModel
				for k := 0; k < n; k++ {
					i := k * step % len(vs)
					ms = append(ms, vs[i])
					ss = append(ss, sole(fmt.Sprint("zoo", i), doc(vs[i]), rows))
				}
				c.Bound("models in one document, swept", n)
				c.together(doc(ms...).XML(), ss, rows, allOrders(n))
			})
		}
	}
}

// foreignModel is a model of a class the library does not score, empty or with contents.
func foreignModel(class string, form int) string {
	if form == 0 {
		return "<" + class + ` functionName="regression"/>`
	}
	return "<" + class + ` modelName="m" functionName="classification"><MiningSchema><MiningField name="temp" missingValueReplacement="-40"/></MiningSchema>` +
		`<Output><OutputField name="zz"/></Output><LocalTransformations><DerivedField name="temp" optype="continuous" dataType="double"><Constant>1</Constant></DerivedField></LocalTransformations>` +
		strings.Repeat(`<Extension><TreeModel functionName="regression"/></Extension>`, 2) + "</" + class + ">"
}
