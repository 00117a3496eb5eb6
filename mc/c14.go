package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&prop{id: "C14", level: "model_checking",
		what:   "one state per document with one unsupported construct at one place (every construct of the catalogue at every place of every base document it can stand); transitions are decode, build and score calls; one validated trace per row that was shown to reach the construct (neutral replacements give different results, or a poisoned one fails) or that is scored in a document that must be refused whatever the row.",
		assume: []string{"a row reaches an expression or predicate if replacing it by some of several constants changes the result", "a row reaches a segment if a regression with an undeclared predictor in its place fails"},
		run:    runC14})
}

var badFunctions = []string{"min", "max", "avg", "product", "median", "pow", "exp", "ln", "log10", "sqrt", "abs", "floor", "ceil", "round", "threshold", "modulo", "and", "or", "not", "equal", "notEqual", "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual", "isIn", "isNotIn", "isValid", "isNotValid", "concat", "uppercase", "lowercase", "substring", "trimBlanks", "formatNumber", "replace", "matches", "Sum", "SUM", "IF", "ismissing", "isnotmissing", "add", "subtract", "multiply", "divide", "%", "", " + ", "+ ", "++", "userDefined", "noSuch"}

var badExpressions = []string{
	`<NormContinuous field="temp"><LinearNorm orig="0" norm="0"/><LinearNorm orig="100" norm="1"/></NormContinuous>`,
	`<NormContinuous field="temp" mapMissingTo="3"><LinearNorm orig="0" norm="0"/><LinearNorm orig="100" norm="1"/></NormContinuous>`,
	`<NormDiscrete field="outlook" value="sunny"/>`,
	`<NormDiscrete field="outlook" value="sunny" mapMissingTo="1"/>`,
	`<Discretize field="temp" defaultValue="x" mapMissingTo="y"><DiscretizeBin binValue="low"><Interval closure="openOpen" rightMargin="50"/></DiscretizeBin></Discretize>`,
	`<Aggregate field="temp" function="sum"/>`,
	`<Lag field="temp" n="1"/>`,
	`<TextIndex textField="outlook"><Constant dataType="string">sunny</Constant></TextIndex>`,
	`<Constant dataType="integer">7</Constant>`, `<Constant dataType="string">7</Constant>`, `<Constant dataType="boolean">true</Constant>`,
	`<Constant dataType="float">7.5</Constant>`, `<Constant dataType="date">2020-01-01</Constant>`, `<Constant dataType="Double">7</Constant>`, `<Constant>7</Constant>`, `<Constant dataType="">7</Constant>`,
	`<Constant dataType="double">seven</Constant>`, `<Constant dataType="double"></Constant>`, `<Constant dataType="double">1,5</Constant>`,
	`<MapValues outputColumn="out" dataType="string" defaultValue="d"><FieldColumnPair field="outlook" column="c"/><TableLocator/></MapValues>`,
	`<MapValues outputColumn="out" dataType="double"><FieldColumnPair field="temp" column="c"/><TableLocator/></MapValues>`,
	`<MapValues outputColumn="out" dataType="date" defaultValue="1"><FieldColumnPair field="outlook" column="c"/><InlineTable><row><c>nowhere</c><out>1</out></row></InlineTable></MapValues>`,
	`<Apply function="+"><Constant dataType="double">1</Constant></Apply>`, `<Apply function="+"/>`, `<Apply function="*"><Constant dataType="double">1</Constant><Constant dataType="double">2</Constant><Constant dataType="double">3</Constant></Apply>`,
	`<Apply function="-"><Constant dataType="double">1</Constant></Apply>`, `<Apply function="/"><Constant dataType="double">1</Constant><Constant dataType="double">2</Constant><Constant dataType="double">3</Constant></Apply>`,
	`<Apply function="isMissing"/>`, `<Apply function="isMissing"><FieldRef field="temp"/><FieldRef field="amount"/></Apply>`, `<Apply function="isNotMissing"/>`, `<Apply function="isNotMissing"><FieldRef field="temp"/><FieldRef field="amount"/></Apply>`,
	`<Apply function="if"><Apply function="isMissing"><FieldRef field="temp"/></Apply><Constant dataType="double">1</Constant></Apply>`, `<Apply function="if"><Apply function="isMissing"><FieldRef field="temp"/></Apply></Apply>`, `<Apply function="if"/>`,
	`<Apply function="if"><Apply function="isMissing"><FieldRef field="temp"/></Apply><Constant dataType="double">1</Constant><Constant dataType="double">2</Constant><Constant dataType="double">3</Constant></Apply>`,
	`<Apply function="+" mapMissingTo="5"><Constant dataType="double">1</Constant></Apply>`, `<Apply function="min" defaultValue="5" mapMissingTo="6"><FieldRef field="temp"/></Apply>`,
	`<Unknown/>`,
}

// expressions whose results differ, to tell whether a row's result depends on an expression
var probes = []string{`<Constant dataType="double">1000003</Constant>`, `<Constant dataType="double">-7.25</Constant>`, `<FieldRef field="neverSupplied"/>`, `<Apply function="isMissing"><FieldRef field="neverSupplied"/></Apply>`}

var modelClasses = []string{"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel", "GeneralRegressionModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork", "RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel", "TimeSeriesModel"}

const poisonModel = `<RegressionModel functionName="regression"><MiningSchema/><Output><OutputField name="score"/></Output><RegressionTable intercept="1"><NumericPredictor name="neverSupplied" coefficient="1"/></RegressionTable></RegressionModel>`

// alt renders the tree with e replaced by raw text.
func (n *xnode) alt(e *xnode, raw string) string {
	return n.with(e, func(e *xnode) { *e = *rawX(raw) })
}

func deepDocs() []zooItem {
	f := []Field{{Name: "outlook", Type: "string", OpType: "categorical"}, {Name: "temp", Type: "double", OpType: "continuous"}, {Name: "amount", Type: "double", OpType: "continuous"}}
	rows := []Row{{"outlook": "sunny", "temp": 70.0, "amount": 2.0}, {"outlook": "rain", "amount": 3.0}, {"outlook": "x", "temp": 1.0}, {}}
	deep := eA("if", eA("isNotMissing", eA("+", eF("temp"), eA("*", eF("amount"), eK("2")))), eA("sum", eA("-", eF("temp"), eK("1")), eA("/", eK("8"), eF("amount")), eA("if", eA("isMissing", eF("outlook")), eK("3"), eK("4"))), eA("if", eA("isMissing", eA("sum", eF("amount"))), eK("5"), eA("*", eK("6"), eF("amount"))))
	mk := func(place string) *Doc {
		dfs := []DF{dfC("a", deep), dfC("b", eA("+", eF("a"), eK("1"))), tableOf("tab", "in", "outlook", sp("other"), "sunny", "s", "rain", "r")}
		t := &Mdl{Kind: "tree", Func: "regression", MFs: active("outlook", "temp", "amount"), Root: &Node{ID: "1", Score: "1", Pred: pTrue(), Kids: []*Node{
			{ID: "2", Score: "2", Pred: pS("tab", "equal", "r")}, {ID: "3", Score: "3", Pred: pS("b", "lessThan", "30")}, {ID: "4", Score: "4", Pred: pS("b", "isMissing", "")}, {ID: "5", Score: "5", Pred: pS("a", "greaterThan", "60")}}}}
		r := &Mdl{Kind: "reg", Func: "regression", MFs: active("outlook", "temp", "amount"), Tables: []Table{{Intercept: 1, Nums: []NumPred{{"b", 2, 0}}, Cats: []CatPred{{"tab", "s", 10}}}}, Out: []OutF{{Name: "score", Feature: "predictedValue"}}}
		m := &Mdl{Kind: "mining", Func: "regression", Method: "sum", MFs: active("outlook", "temp", "amount"), Out: []OutF{{Name: "total"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: t}, {ID: "2", Pred: pS("amount", "isNotMissing", ""), Model: r}}}
		d := &Doc{Fields: f, Model: m}
		switch place {
		case "td":
			d.TD = dfs
		case "ensemble":
			m.LT = dfs
		case "segment":
			t.LT, r.LT = dfs, dfs
		case "inner":
			d.Model = &Mdl{Kind: "mining", Func: "regression", Method: "selectFirst", MFs: active("outlook", "temp", "amount"), Segs: []*Seg{{ID: "o", Pred: pTrue(), Model: m}}}
			m.LT = dfs
		}
		return d
	}
	var z []zooItem
	for _, p := range []string{"td", "ensemble", "segment", "inner"} {
		z = append(z, zooItem{"deep-" + p, mk(p), rows})
	}
	return z
}

func runC14(c *Ctx) {
	items := append(append(setDocs(), zoo()...), deepDocs()...)
	for zi := range items {
		it := &items[zi]
		x := it.doc.XML()
		root := parseX(x)
		// results of a document for every row; nil where an error is given
		results := func(y string) []*Res {
			r := make([]*Res, len(it.rows))
			c.r.Transitions++
			m, err := build(y)
			if err != nil {
				return r
			}
			for i, row := range it.rows {
				c.r.Transitions++
				s := score(m, row)
				if s.Kind != resErr {
					r[i] = &s
				}
			}
			return r
		}
		mustRefuse := func(name, y string, reached func(i int) bool) {
			c.Case(it.name+" "+name, func() {
				c.r.States++
				c.curDetail = y
				got := results(y)
				for i, g := range got {
					if g == nil {
						c.Outcome("refused")
						c.r.Validated++
						continue
					}
					if reached != nil && !reached(i) {
						c.Outcome("not reached")
						continue
					}
					c.Fail(y, "row %v: %s gives %v", it.rows[i], name, *g)
				}
				c.Sample(map[string]interface{}{"case": c.name, "document": y})
			})
		}
		// reachedBy decides by alternatives: the result of row i differs from that of some alternative.
		reachedBy := func(y *string, alts []string) func(i int) bool {
			var own []*Res
			var all [][]*Res
			return func(i int) bool {
				if all == nil {
					own = results(*y)
					for _, a := range alts {
						all = append(all, results(a))
					}
				}
				for _, a := range all {
					if (a[i] == nil) != (own[i] == nil) || a[i] != nil && !identical(*a[i], *own[i]) {
						return true
					}
				}
				return false
			}
		}
		poisoned := func(alt string) func(i int) bool {
			var got []*Res
			return func(i int) bool {
				if got == nil {
					got = results(alt)
				}
				return got[i] == nil
			}
		}
		var visit func(e, parent *xnode, poison string)
		n := 0
		visit = func(e, parent *xnode, poison string) {
			n++
			at := fmt.Sprintf("%d %s", n, e.name)
			var inModel func(i int) bool
			if poison != "" {
				inModel = poisoned(poison)
			}
			set := func(attr string, vals ...string) {
				for _, v := range vals {
					mustRefuse(fmt.Sprintf("%s %s=%q", at, attr, v), root.with(e, func(e *xnode) { e.setAttr(attr, v) }), inModel)
				}
				mustRefuse(fmt.Sprintf("%s without %s", at, attr), root.with(e, func(e *xnode) { e.dropAttr(attr) }), inModel)
			}
			raw := func(name, text string, r func(i int) bool) {
				mustRefuse(at+" "+name, root.alt(e, text), r)
			}
			switch e.name {
			case "SimplePredicate", "SimpleSetPredicate", "CompoundPredicate", "True", "False":
				inPred := parent.name == "CompoundPredicate"
				alts := []string{root.alt(e, "<True/>"), root.alt(e, "<False/>")}
				try := func(name, y string) {
					mustRefuse(at+" "+name, y, reachedBy(&y, alts))
				}
				if !inPred {
					try("missing", root.alt(e, ""))
					if parent.name == "Segment" {
						try("twice", root.with(parent, func(p *xnode) { dup(p, e) }))
					}
				}
				try("unknown predicate", root.alt(e, "<NoSuchPredicate/>"))
				try("unknown predicate with attributes", root.alt(e, `<simplePredicate field="temp" operator="equal" value="1"/>`))
				if e.name == "SimplePredicate" || e.name == "SimpleSetPredicate" {
					ops, attr := []string{"bogus", "", "isIn", "isNotIn", "EQUAL", "equals", "=", "<", "greater", "lessthan", "in", "IsMissing", " equal"}, "operator"
					if e.name == "SimpleSetPredicate" {
						ops, attr = []string{"bogus", "", "equal", "isin", "in", "notIn", "isMissing", "is In"}, "booleanOperator"
					}
					for _, op := range ops {
						try(attr+"="+op, root.with(e, func(e *xnode) { e.setAttr(attr, op) }))
					}
					try("without "+attr, root.with(e, func(e *xnode) { e.dropAttr(attr) }))
					for _, f := range []string{"neverDeclared", "", "Temp", "temp ", "OUTLOOK"} {
						try("field="+f, root.with(e, func(e *xnode) { e.setAttr("field", f) }))
					}
					try("without field", root.with(e, func(e *xnode) { e.dropAttr("field") }))
					f, _ := e.attr("field")
					op, _ := e.attr("operator")
					for _, df := range root.elems() {
						nm, _ := df.attr("name")
						if df.name != "DataField" && df.name != "DerivedField" || nm != f || strings.HasPrefix(op, "is") || !visible(root, df, e) {
							continue
						}
						for _, ty := range []string{"date", "time", "dateTime", "timeSeconds", "dateDaysSince[0]", "dateDaysSince[1960]", "dateDaysSince[1970]", "dateDaysSince[1980]", "dateTimeSecondsSince[1970]", "bogus", "", "Double", "int", "number", "real"} {
							try(fmt.Sprintf("type of %s %s is %q", df.name, f, ty), root.with(df, func(e *xnode) { e.setAttr("dataType", ty) }))
						}
						if ty, _ := df.attr("dataType"); e.name == "SimplePredicate" {
							bad := []string{"abc", "", "1,5", "1..2", "0x", "1 2"}
							switch ty {
							case "integer":
								bad = append(bad, "1.5", "1e3")
							case "boolean":
								bad = []string{"yes", "", "2", "maybe"}
							case "string":
								bad = nil
								for _, o := range []string{"lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual"} {
									try("ordering "+o, root.with(e, func(e *xnode) { e.setAttr("operator", o) }))
								}
							}
							for _, v := range bad {
								try("value="+v, root.with(e, func(e *xnode) { e.setAttr("value", v) }))
							}
						}
					}
				}
				if e.name == "CompoundPredicate" {
					for _, op := range []string{"bogus", "", "not", "nand", "AND", "Or", "surrogates", "equal", "and or"} {
						try("booleanOperator="+op, root.with(e, func(e *xnode) { e.setAttr("booleanOperator", op) }))
					}
					try("without booleanOperator", root.with(e, func(e *xnode) { e.dropAttr("booleanOperator") }))
				}
				if !inPred && c.Thorough || !inPred && n%3 == 0 {
					// below compound predicates
					for _, op := range []string{"and", "or", "xor", "surrogate"} {
						for _, bad := range []string{`<SimplePredicate field="temp" operator="bogus" value="1"/>`, `<SimplePredicate field="neverDeclared" operator="equal" value="1"/>`, `<SimplePredicate field="neverDeclared" operator="isMissing"/>`, `<SimpleSetPredicate field="temp" booleanOperator="in"><Array type="real" n="1">1</Array></SimpleSetPredicate>`, `<CompoundPredicate booleanOperator="not"><True/></CompoundPredicate>`, `<CompoundPredicate booleanOperator="or"><True/><CompoundPredicate booleanOperator="and"><False/><SimplePredicate field="outlook" operator="lessThan" value="1"/></CompoundPredicate></CompoundPredicate>`, `<NoSuchPredicate/>`} {
							for k, before := range []string{"<True/>", "<False/>", ""} {
								y := root.alt(e, `<CompoundPredicate booleanOperator="`+op+`">`+before+bad+`<True/></CompoundPredicate>`)
								var al []string
								for _, g := range []string{"<True/>", "<False/>"} {
									al = append(al, root.alt(e, `<CompoundPredicate booleanOperator="`+op+`">`+before+g+`<True/></CompoundPredicate>`))
								}
								mustRefuse(fmt.Sprintf("%s in %s %d %s", at, op, k, bad), y, reachedBy(&y, al))
							}
						}
					}
				}
			case "FieldRef", "Constant", "Apply", "MapValues":
				var alts []string
				for _, p := range probes {
					alts = append(alts, root.alt(e, p))
				}
				try := func(name, y string) {
					mustRefuse(at+" "+name, y, reachedBy(&y, alts))
				}
				for i, b := range badExpressions {
					try(fmt.Sprintf("expression %d", i), root.alt(e, b))
				}
				if e.name == "Apply" {
					for _, f := range badFunctions {
						try("function="+f, root.with(e, func(e *xnode) { e.setAttr("function", f) }))
					}
					try("without function", root.with(e, func(e *xnode) { e.dropAttr("function") }))
					if f, _ := e.attr("function"); f != "sum" {
						for i := range e.kids {
							try(fmt.Sprintf("without argument %d", i), root.with(e, func(e *xnode) { e.kids = append(append([]*xnode{}, e.kids[:i]...), e.kids[i+1:]...) }))
							try(fmt.Sprintf("argument %d twice", i), root.with(e, func(e *xnode) { e.insert(i, e.kids[i]) }))
						}
						try("without arguments", root.with(e, func(e *xnode) { e.kids = nil }))
					}
				}
				if parent.name == "DerivedField" {
					try("absent", root.alt(e, ""))
				}
			case "TreeModel", "RegressionModel", "MiningModel":
				if parent != nil {
					poison = root.alt(e, poisonModel)
					if parent.name == "PMML" {
						poison = ""
						inModel = nil
					} else {
						inModel = poisoned(poison)
					}
				}
				for _, cl := range modelClasses {
					raw("class "+cl, fmt.Sprintf(`<%s functionName="regression"><MiningSchema/></%s>`, cl, cl), inModel)
					var in strings.Builder
					for _, k := range e.kids {
						k.render(&in)
					}
					raw("class "+cl+" with its contents", fmt.Sprintf(`<%s functionName="regression">%s</%s>`, cl, in.String(), cl), inModel)
				}
				raw("unknown class", `<NoSuchModel functionName="regression"><MiningSchema/></NoSuchModel>`, inModel)
				set("functionName", "clustering", "associationRules", "sequences", "timeSeries", "mixed", "", "Regression", "classify", "bogus")
				switch e.name {
				case "TreeModel":
					for _, k := range []string{`<Regression functionName="regression"><RegressionTable intercept="3"/></Regression>`, `<DecisionTree functionName="regression"><Node score="1"><True/></Node></DecisionTree>`} {
						for i, nd := range e.elems() {
							if nd.name == "Node" {
								mustRefuse(fmt.Sprintf("%s node %d with %s", at, i, k[:12]), root.with(nd, func(e *xnode) { e.kids = append(e.kids, rawX(k)) }), inModel)
							}
						}
					}
				case "RegressionModel":
					fn, _ := e.attr("functionName")
					for _, m := range []string{"probit", "loglog", "Logit", "sigmoid", "bogus", "identity", "None"} {
						mustRefuse(at+" normalizationMethod="+m, root.with(e, func(e *xnode) { e.setAttr("normalizationMethod", m) }), inModel)
					}
					var tabs []*xnode
					for _, k := range e.kids {
						if k.name == "RegressionTable" {
							tabs = append(tabs, k)
						}
					}
					for i, tb := range tabs {
						mustRefuse(fmt.Sprintf("%s interaction in table %d", at, i), root.with(tb, func(e *xnode) {
							e.kids = append(e.kids, rawX(`<PredictorTerm coefficient="2"><FieldRef field="temp"/><FieldRef field="amount"/></PredictorTerm>`))
						}), inModel)
						nm, _ := e.attr("normalizationMethod")
						if fn == "regression" || nm == "logit" {
							mustRefuse(fmt.Sprintf("%s without table %d", at, i), root.alt(tb, ""), inModel)
						}
						extra := `<RegressionTable intercept="0.5" targetCategory="extra"><NumericPredictor name="amount" coefficient="0.5"/></RegressionTable>`
						if fn == "regression" || nm == "logit" {
							mustRefuse(fmt.Sprintf("%s one more table before %d", at, i), root.with(e, func(e *xnode) { e.insert(indexOf(e, tb), rawX(extra)) }), inModel)
							mustRefuse(fmt.Sprintf("%s one more table after %d", at, i), root.with(e, func(e *xnode) { e.insert(indexOf(e, tb)+1, rawX(extra)) }), inModel)
						}
					}
					mustRefuse(at+" without tables", root.with(e, func(e *xnode) { e.kids = dropAll(e.kids, "RegressionTable") }), inModel)
					if fn == "regression" {
						mustRefuse(at+" without outputs", root.with(e, func(e *xnode) { e.kids = dropAll(e.kids, "Output") }), inModel)
						mustRefuse(at+" two outputs", root.with(e, func(e *xnode) {
							e.kids = append(dropAll(e.kids, "Output"), rawX(`<Output><OutputField name="a"/><OutputField name="b"/></Output>`))
						}), inModel)
					}
				case "MiningModel":
					mustRefuse(at+" without segmentation", root.with(e, func(e *xnode) { e.kids = dropAll(e.kids, "Segmentation") }), inModel)
					mustRefuse(at+" with an embedded regression", root.with(e, func(e *xnode) {
						e.kids = append(dropAll(e.kids, "Segmentation"), rawX(`<Regression functionName="regression"><RegressionTable intercept="3"/></Regression>`))
					}), inModel)
				}
			case "Segmentation":
				for _, m := range []string{"majorityVote", "weightedMajorityVote", "weightedAverage", "median", "max", "selectAll", "Sum", "avg", "bogus", "weightedSum", "weightedMedian"} {
					mustRefuse(at+" multipleModelMethod="+m, root.with(e, func(e *xnode) { e.setAttr("multipleModelMethod", m) }), inModel)
				}
				mustRefuse(at+" without segments", root.with(e, func(e *xnode) { e.kids = nil }), inModel)
			case "Segment":
				var model *xnode
				for _, k := range e.kids {
					if strings.HasSuffix(k.name, "Model") {
						model = k
					}
				}
				p2 := poisoned(root.alt(model, poisonModel))
				mustRefuse(at+" without a model", root.alt(model, ""), p2)
				for i, extra := range []string{model.String(), `<TreeModel functionName="regression"><MiningSchema/><Node score="1"><True/></Node></TreeModel>`, poisonModel} {
					mustRefuse(fmt.Sprintf("%s second model %d", at, i), root.with(e, func(e *xnode) { e.kids = append(e.kids, rawX(extra)) }), p2)
					mustRefuse(fmt.Sprintf("%s second model before it %d", at, i), root.with(e, func(e *xnode) { e.insert(indexOf(e, model), rawX(extra)) }), p2)
				}
				mustRefuse(at+" with something unknown", root.with(e, func(e *xnode) { e.insert(indexOf(e, model), rawX("<NoSuchModel/>")) }), p2)
			case "OutputField":
				// of an ensemble or a classification regression
				if m := parentModel(root, e); m != nil && m.name == "MiningModel" {
					for _, f := range []string{"predictedValue", "predictedDisplayValue", "transformedValue", "decision", "residual", "standardError", "clusterId", "clusterAffinity", "affinity", "entityId", "entityAffinity", "warning", "ruleValue", "reasonCode", "antecedent", "consequent", "rule", "ruleId", "confidence", "support", "lift", "leverage", "stdError", "bogus", "Probability"} {
						for i, attrs := range [][]string{{}, {"value", "1"}, {"value", "a"}, {"value", ""}, {"isFinalResult", "false"}, {"displayName", "o", "dataType", "double", "optype", "continuous"}, {"targetField", "y", "rank", "1"}} {
							mustRefuse(fmt.Sprintf("%s feature=%s %d", at, f, i), root.with(e, func(e *xnode) {
								e.setAttr("feature", f)
								for k := 0; k < len(attrs); k += 2 {
									e.setAttr(attrs[k], attrs[k+1])
								}
							}), inModel)
						}
					}
				}
			}
			for _, k := range e.kids {
				if k.isElem() {
					visit(k, e, poison)
				}
			}
		}
		visit(root, nil, "")
	}
	// Every normalisation with every number of tables and outputs it cannot be applied to, standing
	// alone and in ensembles.
	for _, norm := range []string{"", "none", "softmax", "logit", "exp", "cloglog", "cauchit", "simplemax"} {
		for _, fn := range []string{"regression", "classification"} {
			for tables := 0; tables <= 5; tables++ {
				for outputs := 0; outputs <= 5; outputs++ {
					many := norm == "softmax" || norm == "simplemax"
					if fn == "regression" && tables == 1 && outputs == 1 && norm != "simplemax" || fn == "classification" && (many && tables > 0 || !many && tables == 2) {
						continue
					}
					c.Case(fmt.Sprintf("%s %q with %d tables, %d outputs", fn, norm, tables, outputs), func() {
						for _, wrap := range []string{"", "sum", "average", "selectFirst", "modelChain", "nested"} {
							m := &Mdl{Func: fn, Norm: norm}
							for i := 0; i < tables; i++ {
								m.Tables = append(m.Tables, Table{Category: string(rune('a' + i)), Intercept: float64(1 + i), Nums: []NumPred{{"x", 0.5 * float64(i), 0}}})
							}
							for i := 0; i < outputs; i++ {
								if fn == "regression" {
									m.Out = append(m.Out, OutF{Name: fmt.Sprint("o", i)})
								} else {
									m.Out = append(m.Out, outs(string(rune('a'+i)))...)
								}
							}
							d := regDoc(m, "x")
							method := wrap
							if wrap == "nested" {
								method = "selectFirst"
								d.Model = &Mdl{Kind: "mining", Func: fn, Method: "modelChain", MFs: active("x"), Out: outs("a"), Segs: []*Seg{{Pred: pTrue(), Model: d.Model}}}
							}
							if wrap != "" {
								d.Model = &Mdl{Kind: "mining", Func: fn, Method: method, MFs: active("x"), Out: outs("a"), Segs: []*Seg{{Pred: pTrue(), Model: d.Model}}}
							}
							x := d.XML()
							c.curDetail = x
							c.r.States++
							mo, err := build(x)
							c.r.Transitions++
							if err != nil {
								c.Outcome("refused")
								c.r.Validated++
								continue
							}
							for _, r := range []Row{{"x": 0.0}, {"x": 1.5}, {"x": -2.0}} {
								c.r.Transitions++
								if s := score(mo, r); s.Kind != resErr {
									c.Fail(x, "row %v: %s with %s normalisation, %d tables and %d outputs gives %v", r, fn, norm, tables, outputs, s)
								}
								c.r.Validated++
							}
						}
						c.Bound("tables and outputs of an unsupported combination", tables)
					})
				}
			}
		}
	}
}

func indexOf(e, k *xnode) int {
	for i := range e.kids {
		if e.kids[i] == k {
			return i
		}
	}
	return len(e.kids)
}

func dup(p, k *xnode) { p.insert(indexOf(p, k), k) }

func dropAll(kids []*xnode, name string) []*xnode {
	var r []*xnode
	for _, k := range kids {
		if k.name != name {
			r = append(r, k)
		}
	}
	return r
}

func (e *xnode) dropAttr(name string) {
	var r [][2]string
	for _, a := range e.attrs {
		if a[0] != name {
			r = append(r, a)
		}
	}
	e.attrs = r
}

// parentModel is the innermost model element that contains e.
func parentModel(root, e *xnode) *xnode {
	var best *xnode
	for _, m := range root.elems() {
		if !strings.HasSuffix(m.name, "Model") {
			continue
		}
		for _, k := range m.elems() {
			if k == e {
				best = m
			}
		}
	}
	return best
}

// visible tells whether the field declared by df is in scope where e stands.
func visible(root, df, e *xnode) bool {
	m := parentModel(root, df)
	if m == nil {
		return true
	}
	for _, k := range m.elems() {
		if k == e {
			return true
		}
	}
	return false
}
