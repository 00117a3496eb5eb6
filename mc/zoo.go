package main

// Representative documents used by the checks of histories, schedules, delivery and embedding.

import "fmt"

type zooItem struct {
	name string
	doc  *Doc
	rows []Row
}

func tableOf(name, col, field string, def *string, cells ...string) DF {
	e := &Expr{Kind: "map", Cols: [][2]string{{col, field}}, OutCol: "out", Default: def, DataType: "string"}
	if def == nil {
		e.DataType = ""
	}
	for i := 0; i+1 < len(cells); i += 2 {
		e.Rows = append(e.Rows, []string{cells[i], cells[i+1]})
	}
	return DF{Name: name, OpType: "categorical", DataType: "string", Expr: e}
}

// golf-like classification tree with every kind of predicate
func zooTree(mvs, ntc string, pen *float64) *Mdl {
	m := &Mdl{Kind: "tree", Func: "classification", MVS: mvs, NTC: ntc, Penalty: pen}
	m.Root = &Node{ID: "1", Score: "play", RC: 100, DefaultChild: "2", Pred: pTrue(), Dist: []SD{{"play", 60, nil}, {"may", 30, nil}, {"no", 10, nil}}, Kids: []*Node{
		{ID: "2", Score: "play", RC: 50, DefaultChild: "3", Pred: pS("outlook", "equal", "sunny"), Dist: []SD{{"play", 40, nil}, {"may", 6, nil}, {"no", 4, nil}}, Kids: []*Node{
			{ID: "3", Score: "play", RC: 40, Pred: pC("surrogate", pC("and", pS("temp", "lessThan", "90"), pS("temp", "greaterThan", "50")), pS("humidity", "lessThan", "80"), pFalse()), Dist: []SD{{"play", 36, nil}, {"may", 2, nil}, {"no", 2, nil}}},
			{ID: "4", Score: "no", RC: 10, Pred: pC("or", pS("temp", "greaterOrEqual", "90"), pS("temp", "lessOrEqual", "50")), Dist: []SD{{"play", 1, nil}, {"may", 3, nil}, {"no", 6, nil}}}}},
		{ID: "5", Score: "may", RC: 50, DefaultChild: "7", Pred: pC("and", &Pred{Kind: "set", Field: "outlook", Op: "isIn", Array: []string{"overcast", "rain"}, ArrayType: "string"}, pTrue()), Dist: []SD{{"play", 20, nil}, {"may", 24, nil}, {"no", 6, nil}}, Kids: []*Node{
			{ID: "6", Score: "may", RC: 30, Pred: pC("xor", pS("windy", "equal", "true"), pS("temp", "greaterThan", "60")), Dist: []SD{{"play", 5, nil}, {"may", 20, nil}, {"no", 5, nil}}},
			{ID: "7", Score: "play", RC: 20, Pred: pS("count", "notEqual", "3"), Dist: []SD{{"play", 15, fp(0.75)}, {"may", 4, fp(0.2)}, {"no", 1, fp(0.05)}}}}},
	}}
	m.MFs = append(active("outlook", "temp", "humidity", "windy", "count"), MF{Name: "what", Usage: "target"})
	return m
}

var zooFields = []Field{
	{Name: "outlook", Type: "string", OpType: "categorical", Values: []string{"sunny", "overcast", "rain"}},
	{Name: "temp", Type: "double", OpType: "continuous"}, {Name: "humidity", Type: "float", OpType: "continuous"},
	{Name: "windy", Type: "boolean", OpType: "categorical"}, {Name: "count", Type: "integer", OpType: "continuous"},
	{Name: "what", Type: "string", OpType: "categorical", Values: []string{"play", "may", "no"}},
	{Name: "amount", Type: "double", OpType: "continuous"}, {Name: "score", Type: "double", OpType: "continuous"},
}

func zooRows() []Row {
	return []Row{
		{"outlook": "sunny", "temp": 70.0, "humidity": 65.0, "windy": true, "count": int64(2), "amount": 1.5},
		{"outlook": "rain", "temp": 55.0, "humidity": 85.0, "windy": false, "count": int64(3), "amount": -0.5},
		{"outlook": "overcast", "temp": 95.0, "windy": true, "amount": 2.0},
		{"temp": 70.0, "humidity": 90.0, "amount": 0.0},
		{"outlook": "sunny", "humidity": 60.0, "count": "4", "amount": "3"},
		{"outlook": nil, "temp": nil},
	}
}

func zooReg() *Mdl {
	m := &Mdl{Kind: "reg", Func: "regression", Norm: "exp", LT: []DF{dfC("half", eA("/", eF("temp"), eK("200")))},
		Tables: []Table{{Intercept: 0.25, Nums: []NumPred{{"half", 0.5, 2}, {"amount", 0.1, 0}}, Cats: []CatPred{{"outlook", "sunny", 0.3}, {"outlook", "rain", -0.2}}}}, Out: []OutF{{Name: "mean", Feature: "predictedValue"}}}
	m.MFs = append(active("outlook", "amount"), MF{Name: "temp", Repl: sp("60")})
	return m
}

func zooLogit(norm string) *Mdl {
	m := &Mdl{Kind: "reg", Func: "classification", Norm: norm, Tables: []Table{{Category: "1", Intercept: 0.5, Nums: []NumPred{{"amount", 0.7, 0}, {"temp", -0.01, 0}}}, {Category: "0"}}, Out: []OutF{{"probability(1)", "probability", "1"}, {"probability(0)", "probability", "0"}}}
	if norm == "softmax" {
		m.Tables = append(m.Tables, Table{Category: "2", Intercept: -1, Nums: []NumPred{{"amount", 0.2, 2}}})
		m.Out = append(m.Out, OutF{"probability(2)", "probability", "2"})
	}
	m.MFs = []MF{{Name: "amount", Repl: sp("0.75")}, {Name: "temp", Repl: sp("50")}}
	return m
}

func zooRegTree(k float64) *Mdl {
	m := &Mdl{Kind: "tree", Func: "regression", MVS: "lastPrediction", Root: &Node{ID: "1", Score: num(k), Pred: pTrue(), Kids: []*Node{
		{ID: "2", Score: num(k + 1), Pred: pS("temp", "lessThan", num(60+k))}, {ID: "3", Score: num(k * 2), Pred: pS("temp", "greaterOrEqual", num(60+k)), Kids: []*Node{
			{ID: "4", Score: num(k - 3), Pred: pS("amount", "greaterThan", "1")}, {ID: "5", Score: num(k * 3), Pred: pS("amount", "isMissing", "")}}}}}}
	m.MFs = active("temp", "amount")
	return m
}

func zoo() []zooItem {
	var z []zooItem
	add := func(name string, m *Mdl, td ...DF) {
		d := &Doc{Fields: zooFields, Model: m, TD: td}
		z = append(z, zooItem{name, d, zooRows()})
	}
	for _, mvs := range mvsAll {
		add("tree-"+mvs, zooTree(mvs, "returnNullPrediction", fp(0.8)))
	}
	add("tree-last", zooTree("defaultChild", "", nil))
	add("regtree", zooRegTree(2))
	add("reg", zooReg())
	add("logit", zooLogit("logit"))
	add("softmax", zooLogit("softmax"))
	sum := &Mdl{Kind: "mining", Func: "regression", Method: "sum", MFs: append(active("outlook", "temp", "group"), MF{Name: "amount", Repl: sp("1.25")}), Out: []OutF{{Name: "total"}}, Tgts: []Tgt{{Field: "y", Factor: fp(2), Offset: fp(-1)}},
		LT: []DF{dfC("dbl", eA("*", eF("amount"), eK("2"))), dfC("tot", eA("sum", eF("dbl"), eF("temp")))}}
	for i := 0; i < 3; i++ {
		t := zooRegTree(float64(i) + 1.5)
		t.Root.Kids = append(t.Root.Kids, &Node{ID: "z", Score: "50", Pred: pS("dbl", "greaterThan", num(float64(i)))})
		sum.Segs = append(sum.Segs, &Seg{ID: fmt.Sprint(i), Pred: []*Pred{pTrue(), pS("tot", "greaterThan", "60"), pC("or", pS("group", "equal", "wet"), pS("temp", "isMissing", ""))}[i], Model: t})
	}
	add("sum", sum, tableOf("group", "in", "outlook", sp("other"), "sunny", "dry", "rain", "wet"))
	avg := &Mdl{Kind: "mining", Func: "classification", Method: "average", MFs: append(active("outlook", "temp", "humidity", "windy", "count"), MF{Name: "what", Usage: "target"}),
		Out: []OutF{{"pp", "probability", "play"}, {"probability(may)", "probability", "may"}, {"probability(no)", "probability", "no"}}}
	for i, mvs := range []string{"lastPrediction", "weightedConfidence", "defaultChild", "aggregateNodes"} {
		avg.Segs = append(avg.Segs, &Seg{ID: fmt.Sprint(i), Pred: pTrue(), Model: zooTree(mvs, "", nil)})
	}
	add("average", avg)
	first := &Mdl{Kind: "mining", Func: "classification", Method: "selectFirst", MFs: append(active("outlook", "temp", "humidity", "windy", "count"), MF{Name: "what", Usage: "target"})}
	for i, mvs := range []string{"lastPrediction", "defaultChild"} {
		first.Segs = append(first.Segs, &Seg{ID: fmt.Sprint(i), Pred: []*Pred{pS("temp", "greaterThan", "60"), pTrue()}[i], Model: zooTree(mvs, "", nil)})
	}
	add("selectFirst", first)
	inner := *sum
	inner.Tgts, inner.Out = nil, []OutF{{Name: "score"}}
	chain := &Mdl{Kind: "mining", Func: "classification", Method: "modelChain", MFs: append(active("outlook", "temp", "group"), MF{Name: "amount", Repl: sp("1.25")}),
		Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: &inner}, {ID: "2", Pred: pTrue(), Model: &Mdl{Kind: "reg", Func: "classification", Norm: "softmax", MFs: active("score"), Tables: []Table{{Category: "1", Intercept: 0.1, Nums: []NumPred{{"score", 0.05, 0}}}, {Category: "0"}}, Out: []OutF{{"probability(1)", "probability", "1"}, {"probability(0)", "probability", "0"}}}}}}
	add("chain", chain, tableOf("group", "in", "outlook", sp("other"), "sunny", "dry", "rain", "wet"))
	nest := &Mdl{Kind: "mining", Func: "regression", Method: "average", MFs: active("outlook", "temp", "amount"), Out: []OutF{{Name: "total"}},
		Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: &inner}, {ID: "2", Pred: pS("temp", "isNotMissing", ""), Model: zooReg()}, {ID: "3", Pred: pTrue(), Model: &Mdl{Kind: "mining", Func: "regression", Method: "selectFirst", Segs: []*Seg{{ID: "a", Pred: pS("count", "greaterThan", "2"), Model: zooRegTree(7)}, {ID: "b", Pred: pTrue(), Model: zooRegTree(8)}}}}}}
	add("nested", nest, tableOf("group", "in", "outlook", sp("other"), "sunny", "dry", "rain", "wet"), dfC("warm", eA("if", eA("isMissing", eF("temp")), eK("0"), eA("-", eF("temp"), eK("50")))))
	return z
}

// verification adds verification data computed by the reference: every row with numeric outputs.
func (z *zooItem) verification() *Doc {
	d := *z.doc
	m := *d.Model
	v := &Verification{}
	outs := map[string]bool{}
	ins := map[string]bool{}
	for _, r := range z.rows {
		res := d.Ref(r)
		if res.Kind != resOut {
			continue
		}
		var row [][2]string
		for _, f := range d.Fields {
			if x := refVal(r[f.Name]); x != nil {
				ins[f.Name] = true
				row = append(row, [2]string{f.Name, asStr(x)})
			}
		}
		for _, k := range sortedKeys(res.Out) {
			if x, ok := res.Out[k].(float64); ok && (x == 0 || x > 1e-300 || x < -1e-300) {
				outs[k] = true
				row = append(row, [2]string{"c" + fmt.Sprint(len(k)) + colName(k), num(x)})
			}
		}
		v.Rows = append(v.Rows, row)
	}
	for _, f := range d.Fields {
		if ins[f.Name] {
			v.Fields = append(v.Fields, VField{Field: f.Name, Column: f.Name})
		}
	}
	for _, k := range sortedKeys2(outs) {
		v.Fields = append(v.Fields, VField{Field: k, Column: "c" + fmt.Sprint(len(k)) + colName(k), Precision: "1e-6"})
	}
	m.Verif = v
	d.Model = &m
	return &d
}

func colName(s string) string {
	b := []byte{'_'}
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			b = append(b, byte(r))
		}
	}
	return string(b)
}

func sortedKeys(m map[string]interface{}) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sortStrings(k)
	return k
}

func sortedKeys2(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sortStrings(k)
	return k
}
