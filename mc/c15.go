package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"strings"
	"time"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func init() {
	register(&prop{id: "C15", level: "model_checking",
		what:   "one state per document that decodes (every single structural change - element removed, doubled, emptied, stripped, moved, replaced by every other kind of element, attribute removed, emptied or given an odd value - of every base document, all pairs of removals of the small ones, and every combination of absent, empty, plain and doubled parts of a model); transitions are build, Evaluate, Verify, Validate and Compile calls, each of which returned without a panic; one validated trace per document.",
		assume: []string{"values that contain themselves are not tried (package fmt cannot write them)", "String methods that panic themselves are not tried", "a call that takes more than 150 s counts as not returning"},
		run:    runC15})
}

type valueText struct{ s string }

func (v valueText) String() string { return v.s }

type mapText map[string]string

func (m mapText) String() string { return m["x"] }

type funcText func() string

func (f funcText) String() string { return "f" }

// oddValues are Go values of every kind.
func oddValues() []interface{} {
	var nilErr error
	var nilPtr *ptrText
	var nilVal *valueText
	var nilStr *string
	var nilBig *big.Int
	var nilMap map[string]int
	var nilFunc func()
	var nilMapText mapText
	var nilFuncText funcText
	x := 1
	return []interface{}{nil, 0, 1, -1, int8(-128), int16(-1), int32(7), int64(math.MinInt64), int64(math.MaxInt64), uint(math.MaxUint64), uint8(255), uint16(1), uint32(1), uint64(math.MaxUint64), uintptr(3),
		0.0, math.Copysign(0, -1), 1.5, -1e308, 1e308, 5e-324, math.NaN(), math.Inf(1), math.Inf(-1), float32(1.25), float32(math.Inf(1)), float32(math.NaN()), cmplx.Inf(), complex64(1),
		"", "a", "sunny", "true", "1", "NaN", "inf", "-Inf", "1e999", "0x1p-2", "9223372036854775808", "1_0", " 1", "\x00", "\xff\xfe", "\"", strings.Repeat("9", 5000), strings.Repeat("x", 100000),
		true, false, []byte("a"), []int(nil), []interface{}{1, nil}, [2]string{"a", "b"}, map[string]interface{}{"a": 1}, nilMap, struct{}{}, struct{ A, b interface{} }{1, nil}, &x, nilStr, nilErr, errors.New("e"),
		nilPtr, nilVal, nilBig, &ptrText{"a"}, valueText{""}, &valueText{"1"}, nilMapText, nilFuncText, make(chan int), (chan int)(nil), func() {}, nilFunc, time.Time{}, time.Second, big.NewInt(5), new(big.Float), new(big.Rat),
		evaluation.NewValue(nil), evaluation.NewValue(3), evaluation.DataRow{"x": evaluation.NewValue(1)}, &evaluation.Value{}, (*evaluation.Value)(nil), models.Row{}, error(nil), interface{}(nil), named("z"), '☃'}
}

var oddAttrs = []string{"", "NaN", "INF", "-INF", "1e308", "-1", "0", "-0", "1e-320", "2", "x", "true", "x y", "9223372036854775807", "sum", "equal", "and", "average", "classification", "string", "integer", "returnNullPrediction", "aggregateNodes", "modelChain", "data:", "data:x", ":"}

// survive builds all models of a document and calls everything on them; panics are caught by the driver.
func (c *Ctx) survive(x string, rows []evaluation.DataRow) {
	c.curDetail = x
	p, err := decode(x)
	if err != nil {
		c.Outcome("refused when decoding")
		return
	}
	c.r.States++
	for _, me := range p.Models {
		for k := 0; k < 2; k++ {
			td := &p.TransformationDictionary
			if k == 1 {
				if len(td.DerivedFields) > 0 {
					continue
				}
				td = nil
			}
			m, err := evaluation.NewModel(&p.DataDictionary, td, me)
			c.r.Transitions++
			if err != nil {
				c.Outcome("refused when building")
				continue
			}
			if m == nil {
				c.Fail(x, "NewModel gives neither a model nor an error")
			}
			errs, outs := 0, 0
			for i, r := range rows {
				c.curDetail = ""
				if c.only >= 0 {
					c.curDetail = fmt.Sprintf("%s\nrow %d", x, i)
				}
				out, err := m.Evaluate(r)
				c.r.Transitions++
				if err != nil {
					errs++
				} else if len(out) > 0 {
					outs++
				}
			}
			c.curDetail = x
			v := m.Verify()
			if err := m.Validate(); err == nil {
				m.Compile()
			}
			if len(rows) > 0 {
				m.Evaluate(rows[0])
			}
			c.r.Transitions += 4
			c.Outcome(fmt.Sprintf("errors %v, outputs %v, verified %v", errs > 0, outs > 0, v == nil))
		}
	}
	c.r.Validated++
	c.Sample(map[string]interface{}{"case": c.name, "document": x, "rows": len(rows)})
}

// elementsBelow, but never the root.
func parentOf(root, e *xnode) (*xnode, int) {
	for _, p := range root.elems() {
		for i, k := range p.kids {
			if k == e {
				return p, i
			}
		}
	}
	return nil, 0
}

func runC15(c *Ctx) {
	type src struct {
		name, xml string
		rows      []Row
		fields    []string
	}
	var docs []src
	for _, n := range richNames {
		docs = append(docs, src{"rich-" + n, richDocs()[n], richRows, []string{"x", "s", "n", "b", "g", "y", "loc1"}})
	}
	items := append(append(setDocs(), zoo()...), deepDocs()...)
	for i := range items {
		docs = append(docs, src{items[i].name, items[i].verification().XML(), items[i].rows, []string{"outlook", "temp", "amount", "count", "windy", "humidity"}})
	}
	odd := oddValues()
	oddRows := func(fields []string, base []Row) []evaluation.DataRow {
		rows := []evaluation.DataRow{nil, {}, {"": evaluation.NewValue(1)}}
		for i, v := range odd {
			all := dataRow(base[i%len(base)])
			for _, f := range fields {
				all[f] = evaluation.NewValue(v)
			}
			rows = append(rows, all)
		}
		return rows
	}
	// Ensembles of every function over segments of every kind, whose targets and outputs name what the segments report.
	for _, fn := range []string{"regression", "classification"} {
		for _, meth := range []string{"sum", "average", "selectFirst", "modelChain"} {
			for _, inner := range []string{
				`<TreeModel functionName="regression"><MiningSchema><MiningField name="y" usageType="target"/></MiningSchema><Node score="1"><True/></Node></TreeModel>`,
				`<TreeModel functionName="classification"><MiningSchema><MiningField name="y" usageType="target"/></MiningSchema><Node score="a"><True/><ScoreDistribution value="a" recordCount="1"/><ScoreDistribution value="7" recordCount="3"/></Node></TreeModel>`,
				`<RegressionModel functionName="regression"><MiningSchema><MiningField name="y" usageType="target"/></MiningSchema><Output><OutputField name="y"/></Output><RegressionTable intercept="1"/></RegressionModel>`,
				`<RegressionModel functionName="classification" normalizationMethod="softmax"><MiningSchema><MiningField name="y" usageType="target"/></MiningSchema><Output><OutputField name="y" feature="probability" value="a"/><OutputField name="score" feature="probability" value="b"/></Output><RegressionTable intercept="1" targetCategory="a"/><RegressionTable intercept="2" targetCategory="b"/></RegressionModel>`,
			} {
				c.Case(fmt.Sprintf("targets and outputs %s %s %.60s", fn, meth, inner), func() {
					names := []string{"", "y", "score", "probability(a)", "label", "a", "nowhere"}
					for _, t := range names {
						for _, o := range names {
							x := `<PMML version="4.2"><DataDictionary><DataField name="x" dataType="double" optype="continuous"/><DataField name="y" dataType="string" optype="categorical"><Value value="a"/></DataField></DataDictionary><MiningModel functionName="` + fn + `"><MiningSchema><MiningField name="x"/><MiningField name="y" usageType="target"/></MiningSchema>`
							if o != "" {
								x += `<Output><OutputField name="` + o + `" feature="probability" value="a"/></Output>`
							}
							if t != "" {
								x += `<Targets><Target field="` + t + `" castInteger="round"/></Targets>`
							}
							c.survive(x+`<Segmentation multipleModelMethod="`+meth+`"><Segment><True/>`+inner+`</Segment><Segment><True/>`+inner+`</Segment></Segmentation></MiningModel></PMML>`, []evaluation.DataRow{nil, {"x": evaluation.NewValue(1.0)}})
						}
					}
				})
			}
		}
	}
	// Every field with every odd value, the others from every base row; and pairs of odd values.
	for _, d := range docs {
		for fi, f := range d.fields {
			c.Case(fmt.Sprintf("%s values of %s", d.name, f), func() {
				var rows []evaluation.DataRow
				for _, b := range d.rows {
					for i, v := range odd {
						r := dataRow(b)
						r[f] = evaluation.NewValue(v)
						rows = append(rows, r)
						r = cloneRow(r)
						r[d.fields[(fi+1)%len(d.fields)]] = evaluation.NewValue(odd[(i*7+3)%len(odd)])
						rows = append(rows, r)
					}
				}
				c.survive(d.xml, rows)
			})
		}
		for i, v := range odd {
			c.Case(fmt.Sprintf("%s pairs with value %d", d.name, i), func() {
				var rows []evaluation.DataRow
				for _, w := range odd {
					for fi := range d.fields {
						r := dataRow(d.rows[0])
						r[d.fields[fi]] = evaluation.NewValue(v)
						r[d.fields[(fi+1)%len(d.fields)]] = evaluation.NewValue(w)
						rows = append(rows, r)
					}
				}
				c.survive(d.xml, rows)
			})
		}
	}
	// Structural changes.
	for di, d := range docs {
		root := parseX(d.xml)
		var rows []evaluation.DataRow
		for _, r := range d.rows {
			rows = append(rows, dataRow(r))
		}
		all := oddRows(d.fields, d.rows)
		for i := range all {
			if i < 3 || i%5 == 0 {
				rows = append(rows, all[i])
			}
		}
		es := root.elems()
		kinds := map[string]*xnode{}
		var kindNames []string
		var names []string
		seen := map[string]bool{}
		for _, e := range es {
			for _, a := range e.attrs {
				if (a[0] == "name" || a[0] == "id") && !seen[a[1]] {
					seen[a[1]] = true
					names = append(names, a[1])
				}
			}
		}
		for _, e := range es {
			if kinds[e.name] == nil || len(kinds[e.name].kids) < len(e.kids) {
				if kinds[e.name] == nil {
					kindNames = append(kindNames, e.name)
				}
				kinds[e.name] = e
			}
		}
		for ei, e := range es {
			if e == root {
				continue
			}
			p, at := parentOf(root, e)
			change := func(what string, f func() string) {
				c.Case(fmt.Sprintf("%s %s#%d %s", d.name, e.name, ei, what), func() { c.survive(f(), rows) })
			}
			change("removed", func() string {
				return root.with(p, func(p *xnode) { p.kids = append(p.kids[:at:at], p.kids[at+1:]...) })
			})
			change("doubled", func() string { return root.with(p, func(p *xnode) { p.insert(at, e) }) })
			change("tenfold", func() string {
				return root.with(p, func(p *xnode) {
					for i := 0; i < 9; i++ {
						p.insert(at, e)
					}
				})
			})
			change("first", func() string {
				return root.with(p, func(p *xnode) { p.kids = append(p.kids[:at:at], p.kids[at+1:]...); p.insert(0, e) })
			})
			change("emptied", func() string { return root.with(e, func(e *xnode) { e.kids = nil }) })
			change("stripped", func() string { return root.with(e, func(e *xnode) { e.attrs = nil }) })
			change("bare", func() string { return root.with(e, func(e *xnode) { e.attrs, e.kids = nil, nil }) })
			change("with text", func() string { return root.with(e, func(e *xnode) { e.insert(0, &xnode{text: " stray \"text "}) }) })
			change("in itself", func() string { k := e.clone(); return root.with(e, func(e *xnode) { e.kids = append(e.kids, k) }) })
			change("unwrapped", func() string {
				return root.with(p, func(p *xnode) {
					p.kids = append(append(p.kids[:at:at], e.kids...), p.kids[at+1:]...)
				})
			})
			if len(es) < 120 || c.Thorough {
				for _, k := range kindNames {
					if k != e.name && k != "PMML" {
						change("becomes "+k, func() string { return root.alt(e, kinds[k].String()) })
						change("renamed "+k, func() string { return root.with(e, func(e *xnode) { e.name = k }) })
					}
				}
			}
			for _, a := range e.attrs {
				change("without "+a[0], func() string {
					return root.with(e, func(e *xnode) {
						var keep [][2]string
						for _, b := range e.attrs {
							if b[0] != a[0] {
								keep = append(keep, b)
							}
						}
						e.attrs = keep
					})
				})
				for _, v := range oddAttrs {
					if len(es) >= 120 && !c.Thorough && len(v) > 4 {
						continue
					}
					change(a[0]+"="+v, func() string { return root.with(e, func(e *xnode) { e.setAttr(a[0], v) }) })
				}
			}
			// References to every other name: to itself, to what comes later, in circles.
			if len(es) < 120 || c.Thorough {
				for _, a := range e.attrs {
					switch a[0] {
					case "name", "field", "id", "defaultChild", "column", "outputColumn", "targetCategory":
						for _, n := range names {
							if n != a[1] {
								change(a[0]+" named "+n, func() string { return root.with(e, func(e *xnode) { e.setAttr(a[0], n) }) })
							}
						}
					}
				}
			}
			for _, s := range specs[e.name].attrs {
				if _, ok := e.attr(s.name); !ok {
					for _, v := range []string{"", "0", "-1", "x", "3"} {
						change("new "+s.name+"="+v, func() string { return root.with(e, func(e *xnode) { e.setAttr(s.name, v) }) })
					}
				}
			}
		}
		// All pairs of removals.
		if di < 3 || len(es) < 90 || c.Thorough {
			for i, a := range es {
				if a == root {
					continue
				}
				c.Case(fmt.Sprintf("%s %s#%d removed with another", d.name, a.name, i), func() {
					p, at := parentOf(root, a)
					x := root.with(p, func(p *xnode) { p.kids = append(p.kids[:at:at], p.kids[at+1:]...) })
					r2 := parseX(x)
					for _, b := range r2.elems() {
						if b == r2 {
							continue
						}
						q, bt := parentOf(r2, b)
						c.survive(r2.with(q, func(q *xnode) { q.kids = append(q.kids[:bt:bt], q.kids[bt+1:]...) }), rows[:min(len(rows), 6)])
						c.survive(r2.with(b, func(b *xnode) { b.attrs = nil }), rows[:min(len(rows), 6)])
					}
				})
			}
		}
	}
	// Every graph of references among two (three) derived fields, in every place.
	refs := func(k int, to string) string {
		r := `<FieldRef field="` + to + `"/>`
		switch k {
		case 1:
			return `<Apply function="+">` + r + `<Constant dataType="double">1</Constant></Apply>`
		case 2:
			return `<Apply function="if"><Apply function="isMissing">` + r + `</Apply>` + r + r + `</Apply>`
		case 3:
			return `<MapValues outputColumn="o"><FieldColumnPair field="` + to + `" column="i"/><InlineTable><row><i>1</i><o>1</o></row></InlineTable></MapValues>`
		}
		return r
	}
	tail := map[string]string{
		"TreeModel":       `<Node score="1"><SimplePredicate field="d0" operator="lessThan" value="1"/><Node score="2"><SimplePredicate field="d1" operator="isMissing"/></Node></Node></TreeModel>`,
		"RegressionModel": `<Output><OutputField name="o"/></Output><RegressionTable intercept="1"><NumericPredictor name="d0" coefficient="1"/></RegressionTable></RegressionModel>`,
	}
	crow := []evaluation.DataRow{dataRow(Row{}), dataRow(Row{"x": 1.0}), dataRow(Row{"x": nil, "d0": nil}), dataRow(Row{"d1": 2.0})}
	to := []string{"d0", "d1", "x", "d2"}
	for nd := 2; nd <= 3; nd++ {
		exprs := 4
		if nd == 3 && !c.Thorough {
			exprs = 2
		}
		for _, kind := range []string{"TreeModel", "RegressionModel"} {
			vectors(nd, 3, func(place []int) {
				vectors(nd, 3, func(nm []int) {
					if nd == 3 && nm[0]+nm[1]*3+nm[2]*9 != 21 { // d0, d1, x
						return
					}
					c.Case(fmt.Sprintf("references of %d fields in %v named %v, %s", nd, place, nm, kind), func() {
						vectors(nd, exprs*4, func(v []int) {
							var at [3]string
							for i, k := range v {
								at[place[i]] += fmt.Sprintf(`<DerivedField name="%s" optype="%s" dataType="double">%s</DerivedField>`, to[nm[i]], []string{"continuous", "categorical"}[i%2], refs(k/4, to[k%4]))
							}
							c.survive(`<PMML version="4.2"><DataDictionary><DataField name="x" dataType="double" optype="continuous"/></DataDictionary><TransformationDictionary>`+at[0]+`</TransformationDictionary><MiningModel functionName="regression"><MiningSchema/><Output><OutputField name="out"/></Output><LocalTransformations>`+at[1]+`</LocalTransformations><Segmentation multipleModelMethod="sum"><Segment><True/><`+kind+` functionName="regression"><MiningSchema/><LocalTransformations>`+at[2]+`</LocalTransformations>`+tail[kind]+`</Segment></Segmentation></MiningModel></PMML>`, crow)
						})
						c.Bound("derived fields in every graph of references", nd)
					})
				})
			})
		}
	}
	// Every combination of parts of a model.
	parts := func(kind string) [][]string {
		schema := []string{"", "<MiningSchema/>", `<MiningSchema><MiningField name="x" missingValueReplacement="1"/><MiningField name="y" usageType="target"/></MiningSchema>`, `<MiningSchema><MiningField/></MiningSchema><MiningSchema/>`}
		out := []string{"", "<Output/>", `<Output><OutputField name="o" feature="probability" value="a"/></Output>`, `<Output><OutputField/><OutputField name="p" value="b" feature="probability"/></Output>`}
		ver := []string{"", "<ModelVerification/>", `<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="score" column="data:y" precision="1"/></VerificationFields><InlineTable><row><x>1</x><y>1</y></row></InlineTable></ModelVerification>`,
			`<ModelVerification><VerificationFields><VerificationField/></VerificationFields><InlineTable><row/><row><x/></row></InlineTable></ModelVerification>`, `<ModelVerification><VerificationFields><VerificationField column="data:" field="" precision="0"/></VerificationFields><InlineTable><row><y>q</y></row></InlineTable><InlineTable/></ModelVerification>`}
		lt := []string{"", `<LocalTransformations/>`, `<LocalTransformations><DerivedField name="x"><FieldRef/></DerivedField><DerivedField/></LocalTransformations>`, `<LocalTransformations><DerivedField name="z" optype="continuous" dataType="double"><MapValues outputColumn="o"><FieldColumnPair/><InlineTable><row/></InlineTable></MapValues></DerivedField></LocalTransformations>`,
			`<LocalTransformations><DerivedField name="z" optype="continuous" dataType="double"><MapValues><InlineTable/></MapValues></DerivedField><DerivedField name="w" dataType="double"><Apply function="sum"/></DerivedField></LocalTransformations>`}
		tg := []string{"", `<Targets/>`, `<Targets><Target field="y" rescaleFactor="2"/><Target/></Targets>`}
		var body []string
		tiny := `<TreeModel functionName="regression"><Node score="1"><True/></Node></TreeModel>`
		switch kind {
		case "TreeModel":
			body = []string{"", "<Node/>", `<Node><True/></Node>`, `<Node score="1"><True/><Node/></Node>`, `<Node score="1"><True/><Node><SimplePredicate/></Node></Node>`, `<Node score="1" defaultChild="q"><True/><ScoreDistribution/><Node id="q"><SimplePredicate field="x" operator="lessThan" value="1"/><ScoreDistribution value="a" recordCount="0"/></Node></Node>`,
				`<Node><CompoundPredicate/></Node>`, `<Node><CompoundPredicate booleanOperator="and"/></Node>`, `<Node score="1"><CompoundPredicate booleanOperator="xor"/></Node>`, `<Node score="1"><CompoundPredicate booleanOperator="surrogate"/></Node>`, `<Node><SimpleSetPredicate/></Node>`, `<Node score="1"><SimpleSetPredicate field="x" booleanOperator="isNotIn"><Array/></SimpleSetPredicate></Node>`, `<Node score="1"><SimpleSetPredicate field="x" booleanOperator="isIn"/></Node>`, `<Node score="b"><True/><Node score="c"><False/></Node></Node><Node/>`,
				`<Node score="1"><True/><Node defaultChild="" id=""><SimplePredicate field="x" operator="lessThan" value="1"/><Node defaultChild="" id=""><SimplePredicate field="x" operator="lessThan" value="1"/></Node></Node></Node>`}
		case "RegressionModel":
			body = []string{"", "<RegressionTable/>", `<RegressionTable intercept="1"><NumericPredictor/></RegressionTable>`, `<RegressionTable targetCategory="a" intercept="1"><CategoricalPredictor/><NumericPredictor name="x" coefficient="1"/></RegressionTable><RegressionTable targetCategory="b"/>`, strings.Repeat(`<RegressionTable targetCategory="a"/>`, 3)}
		case "MiningModel":
			body = []string{"", "<Segmentation/>", `<Segmentation><Segment/></Segmentation>`, `<Segmentation><Segment><True/></Segment></Segmentation>`, `<Segmentation><Segment>` + tiny + `</Segment></Segmentation>`, `<Segmentation><Segment><True/>` + tiny + `</Segment><Segment><False/>` + tiny + `</Segment></Segmentation>`,
				`<Segmentation><Segment><True/><MiningModel functionName="regression"><Segmentation/></MiningModel></Segment></Segmentation>`, `<Segmentation><Segment><True/><RegressionModel functionName="regression"/></Segment></Segmentation>`, `<Segmentation><Segment><SimplePredicate/>` + tiny + `</Segment></Segmentation><Segmentation/>`, `<Segmentation><Segment><True/><TreeModel functionName="classification"/></Segment></Segmentation>`}
		}
		return [][]string{schema, out, ver, lt, tg, body}
	}
	attrs := map[string][]string{
		"TreeModel":       {"", ` functionName="regression"`, ` functionName="classification"`, ` functionName="regression" missingValueStrategy="lastPrediction"`, ` functionName="classification" missingValueStrategy="defaultChild"`, ` functionName="classification" missingValueStrategy="aggregateNodes" noTrueChildStrategy="returnNullPrediction"`, ` functionName="regression" missingValueStrategy="weightedConfidence"`, ` functionName="classification" missingValueStrategy="nullPrediction"`},
		"RegressionModel": {"", ` functionName="regression"`, ` functionName="regression" normalizationMethod="exp"`, ` functionName="classification"`, ` functionName="classification" normalizationMethod="softmax"`, ` functionName="classification" normalizationMethod="simplemax"`, ` functionName="classification" normalizationMethod="logit"`},
		"MiningModel":     {"", ` functionName="regression"`, ` functionName="classification"`},
	}
	dicts := []string{"", "<DataDictionary/>", `<DataDictionary><DataField/><DataField name="x" dataType="double" optype="continuous"/><DataField name="y" dataType="string" optype="categorical"><Value value="a"/><Value/></DataField></DataDictionary>`}
	var prow []evaluation.DataRow
	for _, v := range odd {
		if s, ok := v.(string); ok && len(s) > 100 {
			continue
		}
		prow = append(prow, dataRow(Row{"x": v}), dataRow(Row{"y": v, "x": 1.0, "": v}))
	}
	prow = append(prow, nil, dataRow(Row{}))
	for _, kind := range []string{"TreeModel", "RegressionModel", "MiningModel"} {
		ps := parts(kind)
		for ai, a := range attrs[kind] {
			methods := []string{""}
			if kind == "MiningModel" {
				methods = []string{"", ` multipleModelMethod="sum"`, ` multipleModelMethod="average"`, ` multipleModelMethod="selectFirst"`, ` multipleModelMethod="modelChain"`}
			}
			for mi, meth := range methods {
				for bi, b := range ps[5] {
					c.Case(fmt.Sprintf("parts %s %d %d %d", kind, ai, mi, bi), func() {
						for i0, p0 := range ps[0] {
							for i1, p1 := range ps[1] {
								for i2, p2 := range ps[2] {
									for i3, p3 := range ps[3] {
										for i4, p4 := range ps[4] {
											for i5, dct := range dicts {
												if !c.Thorough && (i0+i1+i2+i3+i4+i5)%3 != 0 && i0+i1+i2+i3+i4 > 2 {
													continue
												}
												x := `<PMML version="4.2">` + dct + "<" + kind + a + ">" + p0 + p1 + p3 + p4 + strings.Replace(b, "<Segmentation", "<Segmentation"+meth, 1) + p2 + "</" + kind + "></PMML>"
												k := (i0*7 + i1*5 + i2*3 + i3 + i4) % len(prow)
												rs := []evaluation.DataRow{prow[k], prow[(k*3+1)%len(prow)], prow[len(prow)-1], prow[len(prow)-2]}
												c.survive(x, rs)
											}
										}
									}
								}
							}
						}
						c.Bound("combinations of parts", len(ps))
					})
				}
			}
		}
	}
	// Size: nothing explodes with depth or width.
	sizes := []int{10, 40, 300}
	if c.Thorough {
		sizes = append(sizes, 3000)
	}
	num3 := []evaluation.DataRow{dataRow(Row{"x": 1.0}), dataRow(Row{"x": -1.0}), dataRow(Row{})}
	for _, n := range sizes {
		for _, mvs := range append([]string{""}, mvsAll...) {
			for shape := 0; shape < 4; shape++ {
				c.Case(fmt.Sprintf("tree of %d, shape %d, %s", n, shape, mvs), func() {
					var w strings.Builder
					open, shut := 0, 0
					node := func(id int, kids bool) {
						fmt.Fprintf(&w, `<Node id="%d" score="a" recordCount="2" defaultChild="%d"><SimplePredicate field="x" operator="%s" value="0"/><ScoreDistribution value="a" recordCount="1"/><ScoreDistribution value="b" recordCount="1"/>`, id, id+1, []string{"lessThan", "greaterThan", "isMissing"}[id%3])
						if kids {
							open++
						} else {
							w.WriteString("</Node>")
						}
					}
					w.WriteString(`<PMML version="4.2"><DataDictionary><DataField name="x" dataType="double" optype="continuous"/></DataDictionary><TreeModel functionName="classification" missingValueStrategy="` + mvs + `"><MiningSchema><MiningField name="y" usageType="target"/></MiningSchema><Node id="0" defaultChild="1" score="a" recordCount="5"><True/>`)
					for i := 1; i <= n; i++ {
						switch shape {
						case 0:
							node(i, true)
						case 1:
							node(i, false)
						case 2:
							node(i, false)
							node(i, true)
						case 3: // the compound predicate nests
						}
					}
					if shape == 3 {
						w.WriteString(`<Node id="1" score="b">`)
						for i := 0; i < n; i++ {
							w.WriteString(`<CompoundPredicate booleanOperator="` + []string{"and", "or", "xor", "surrogate"}[i%4] + `"><SimplePredicate field="x" operator="lessThan" value="0"/>`)
						}
						w.WriteString(strings.Repeat("</CompoundPredicate>", n) + "</Node>")
					}
					for ; shut < open; shut++ {
						w.WriteString("</Node>")
					}
					w.WriteString("</Node></TreeModel></PMML>")
					c.Bound("nodes, swept", n)
					c.survive(w.String(), num3)
				})
			}
		}
		for _, meth := range []string{"sum", "average", "selectFirst", "modelChain"} {
			c.Case(fmt.Sprintf("ensembles nested %d deep, %s", n, meth), func() {
				k := min(n, 200)
				x := `<PMML version="4.2"><DataDictionary><DataField name="x" dataType="double" optype="continuous"/></DataDictionary><TransformationDictionary>`
				for i := 0; i < 10; i++ {
					x += fmt.Sprintf(`<DerivedField name="d%d" dataType="double" optype="continuous"><Apply function="+"><FieldRef field="x"/><FieldRef field="d%d"/></Apply></DerivedField>`, i, i-1)
				}
				x += `</TransformationDictionary>`
				for i := 0; i < k; i++ {
					x += `<MiningModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="o" feature="probability"/></Output><LocalTransformations>` + fmt.Sprintf(`<DerivedField name="l%d" dataType="double" optype="continuous"><Apply function="+"><FieldRef field="d9"/><FieldRef field="l%d"/></Apply></DerivedField>`, i, i-1) + `</LocalTransformations><Segmentation multipleModelMethod="` + meth + `"><Segment><True/>`
				}
				x += `<TreeModel functionName="regression"><Node score="1"><True/></Node></TreeModel>` + strings.Repeat(`</Segment></Segmentation></MiningModel>`, k) + "</PMML>"
				c.Bound("ensembles, nested", k)
				c.survive(x, num3)
			})
		}
		for _, fn := range []string{"+", "sum", "if", "isMissing"} {
			c.Case(fmt.Sprintf("expression nested %d deep, %s", n, fn), func() {
				x := `<PMML version="4.2"><DataDictionary><DataField name="x" dataType="double" optype="continuous"/></DataDictionary><RegressionModel functionName="regression"><Output><OutputField name="o"/></Output><LocalTransformations><DerivedField name="d" dataType="double" optype="continuous">`
				lead := map[string]string{"+": `<FieldRef field="x"/>`, "sum": `<FieldRef field="x"/><FieldRef field="q"/>`, "if": `<FieldRef field="x"/><FieldRef field="x"/>`, "isMissing": ""}[fn]
				x += strings.Repeat(`<Apply function="`+fn+`">`+lead, n) + `<FieldRef field="x"/>` + strings.Repeat("</Apply>", n)
				x += `</DerivedField></LocalTransformations><RegressionTable intercept="1"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`
				c.Bound("expression depth, swept", n)
				c.survive(x, num3)
			})
		}
	}
}

func cloneRow(r evaluation.DataRow) evaluation.DataRow {
	n := evaluation.DataRow{}
	for k, v := range r {
		n[k] = v
	}
	return n
}
