package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Near copies: models that differ from one another in a single attribute or text. Whatever is cached or shared
// under too coarse a key mixes them up.

func deepCopy[T any](v T) T {
	return copyValue(reflect.ValueOf(v)).Interface().(T)
}

func copyValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(copyValue(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyValue(v.Index(i)))
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyValue(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(copyValue(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// near is one change of a model: what it is and how to make it.
type near struct {
	what  string
	do    func()
	field string // whose values tell the difference
	vals  []string
}

// rows adds rows that tell the changed document from the original to those given.
func (n near) rows(rows []Row) []Row {
	if n.field == "" {
		return rows
	}
	var l []Row
	for _, r := range rows {
		for _, v := range n.vals {
			q := r.clone()
			q[n.field] = v
			l = append(l, q)
		}
		if len(l) > 8 {
			break
		}
	}
	return append(l, rows...)
}

var otherWord = map[string]string{
	"lessThan": "lessOrEqual", "lessOrEqual": "lessThan", "greaterThan": "greaterOrEqual", "greaterOrEqual": "greaterThan", "equal": "notEqual", "notEqual": "equal",
	"isMissing": "isNotMissing", "isNotMissing": "isMissing", "isIn": "isNotIn", "isNotIn": "isIn", "and": "or", "or": "and", "xor": "and", "surrogate": "or",
	"+": "-", "-": "+", "*": "/", "/": "*",
	"lastPrediction": "nullPrediction", "nullPrediction": "lastPrediction", "defaultChild": "lastPrediction", "weightedConfidence": "aggregateNodes", "aggregateNodes": "weightedConfidence", "none": "lastPrediction",
	"returnLastPrediction": "returnNullPrediction", "returnNullPrediction": "returnLastPrediction",
	"sum": "average", "average": "sum", "selectFirst": "modelChain", "modelChain": "selectFirst",
	"logit": "softmax", "softmax": "simplemax", "simplemax": "softmax", "exp": "logit", "cauchit": "cloglog", "cloglog": "cauchit",
	"round": "floor", "floor": "ceiling", "ceiling": "round",
}

// nearTexts are texts that a careless key takes for s.
func nearTexts(s string) []string {
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		l := []string{num(f + 1), num(-f), num(f + 1.0/1024)}
		if f != 0 {
			l = append(l, num(f*(1+1e-9)))
		}
		return l
	}
	l := []string{s + "x", s + " ", " " + s}
	if u := strings.ToUpper(s); u != s {
		l = append(l, u)
	}
	return l
}

// nears lists the single changes of a model, in document order.
func nears(m *Mdl) []near {
	var l []near
	text := func(what string, p *string) {
		if *p == "" {
			return
		}
		for _, v := range nearTexts(*p) {
			l = append(l, near{what: fmt.Sprintf("%s %q for %q", what, v, *p), do: func() { *p = v }})
		}
	}
	// keyed texts that number fields and string fields alike may hold
	literal := func(what, field string, p *string) {
		at := len(l)
		old := *p
		text(what, p)
		if _, err := strconv.ParseFloat(*p, 64); err == nil && !strings.HasPrefix(*p, "-") {
			v := "0" + *p
			l = append(l, near{what: fmt.Sprintf("%s %q for %q", what, v, *p), do: func() { *p = v }})
		}
		for i := at; i < len(l); i++ {
			l[i].do()
			l[i].field, l[i].vals = field, []string{old, *p}
			*p = old
		}
	}
	word := func(what string, p *string) {
		if v := otherWord[*p]; v != "" {
			l = append(l, near{what: fmt.Sprintf("%s %q for %q", what, v, *p), do: func() { *p = v }})
		}
	}
	number := func(what string, p *float64) {
		for _, v := range []float64{*p + 1, *p + 1.0/1024, -*p} {
			if v != *p {
				l = append(l, near{what: fmt.Sprintf("%s %v for %v", what, v, *p), do: func() { *p = v }})
			}
		}
	}
	record := func(what string, p *float64) {
		l = append(l, near{what: fmt.Sprintf("%s %v for %v", what, *p+1, *p), do: func() { *p++ }})
	}
	dfs := func(l []DF) {
		for i := range l {
			eachExpr(l[i].Expr, func(e *Expr) {
				if e.Kind == "apply" {
					word("function", &e.Name)
				}
				if e.Kind == "const" {
					text("constant", &e.Value)
				}
				if e.MapMissing != nil {
					text("mapMissingTo", e.MapMissing)
				}
				if e.Default != nil {
					text("defaultValue", e.Default)
				}
				for r := range e.Rows {
					for c := range e.Rows[r] {
						text("cell", &e.Rows[r][c])
					}
				}
			})
		}
	}
	pred := func(p *Pred) {
		eachPred(p, func(p *Pred) {
			word("operator", &p.Op)
			switch p.Kind {
			case "simple":
				literal("literal", p.Field, &p.Value)
			case "set":
				for i := range p.Array {
					literal("element", p.Field, &p.Array[i])
				}
			}
		})
	}
	dfs(m.LT)
	for i := range m.MFs {
		if m.MFs[i].Repl != nil {
			text("replacement", m.MFs[i].Repl)
		}
	}
	word("strategy", &m.MVS)
	word("strategy", &m.NTC)
	word("link", &m.Norm)
	word("method", &m.Method)
	if m.Penalty != nil {
		l = append(l, near{what: "penalty", do: func() { *m.Penalty = *m.Penalty/2 + 0.125 }})
	}
	if m.Root != nil {
		eachNode(m.Root, func(n *Node) {
			text("score", &n.Score)
			if n.RC > 0 {
				record("recordCount", &n.RC)
			}
			for i := range n.Dist {
				record("recordCount", &n.Dist[i].RC)
				text("class", &n.Dist[i].Value)
				if n.Dist[i].Prob != nil {
					p := n.Dist[i].Prob
					l = append(l, near{what: "probability", do: func() { *p = *p/2 + 0.125 }})
				}
			}
			pred(n.Pred)
			if n.DefaultChild != "" && len(n.Kids) > 1 {
				for _, k := range n.Kids {
					if k.ID != n.DefaultChild {
						l = append(l, near{what: "default child", do: func() { n.DefaultChild = k.ID }})
					}
				}
			}
		})
	}
	for i := range m.Tables {
		t := &m.Tables[i]
		number("intercept", &t.Intercept)
		for j := range t.Nums {
			number("coefficient", &t.Nums[j].Coef)
			l = append(l, near{what: "exponent", do: func() { t.Nums[j].Exp = 5 - t.Nums[j].Exp%2 }})
		}
		for j := range t.Cats {
			number("coefficient", &t.Cats[j].Coef)
			literal("category", t.Cats[j].Name, &t.Cats[j].Value)
		}
	}
	for i := range m.Out {
		text("class of an output", &m.Out[i].Value)
	}
	for i := range m.Tgts {
		word("cast", &m.Tgts[i].Cast)
		for _, p := range []*float64{m.Tgts[i].Factor, m.Tgts[i].Offset} {
			if p != nil {
				number("rescaling", p)
			}
		}
	}
	for _, s := range m.Segs {
		pred(s.Pred)
		l = append(l, nears(s.Model)...)
	}
	return l
}

// nearPairs calls f with a copy of an item's model and, one after the other, with copies of it that were changed in
// one place, and with rows.
func nearPairs(it *zooItem, f func(name, what string, a, b *Mdl, rows []Row)) {
	derived := map[string]bool{}
	for _, df := range it.doc.TD {
		derived[df.Name] = true
	}
	eachModel(it.doc.Model, func(m *Mdl) {
		for _, df := range m.LT {
			derived[df.Name] = true
		}
	})
	for i := range nears(it.doc.Model) {
		b := deepCopy(it.doc.Model)
		n := nears(b)[i]
		n.do()
		if derived[n.field] {
			n.field = ""
		}
		f(fmt.Sprintf("near copies of %s %d", it.name, i), n.what, deepCopy(it.doc.Model), b, n.rows(it.rows))
	}
}

// nearItems are the documents whose models the checks put beside near copies.
func nearItems() []zooItem {
	// texts that look like numbers, numbers, truth values
	f := []Field{{Name: "zip", Type: "string", OpType: "categorical"}, {Name: "n", Type: "integer", OpType: "continuous"}, {Name: "d", Type: "double", OpType: "continuous"}, {Name: "b", Type: "boolean", OpType: "categorical"}, {Name: "y", Type: "string", OpType: "categorical"}}
	codes := &Mdl{Kind: "tree", Func: "regression", MVS: "lastPrediction", MFs: active("zip", "n", "d", "b"), Root: &Node{ID: "r", Score: "0", Pred: pTrue(), Kids: []*Node{
		{ID: "1", Score: "1", Pred: pS("zip", "equal", "7")},
		{ID: "2", Score: "2", Pred: &Pred{Kind: "set", Field: "zip", Op: "isIn", Array: []string{"1e1", "00", "a b"}, ArrayType: "string"}},
		{ID: "3", Score: "3", Pred: pC("and", pS("zip", "notEqual", "1.50"), pC("or", pS("n", "equal", "7"), pS("b", "equal", "true")))},
		{ID: "4", Score: "4", Pred: pC("surrogate", pS("d", "lessThan", "7"), pS("zip", "equal", "true"))}}}}
	reg := &Mdl{Kind: "reg", Func: "classification", Norm: "softmax", MFs: active("zip", "d"), Out: outs("1", "01", "1.0"), Tables: []Table{
		{Category: "1", Intercept: 0.25, Cats: []CatPred{{"zip", "7", 1}, {"zip", "8", 2}}}, {Category: "01", Intercept: 0.5, Nums: []NumPred{{"d", 0.125, 0}}}, {Category: "1.0"}}}
	rows := []Row{{"zip": "7", "n": int64(7), "d": 7.0, "b": true}, {"zip": "07", "d": 6.5}, {"zip": "1.5", "n": int64(7), "b": false}, {"zip": "10", "d": 1.0}, {"zip": "1e1", "d": 7.25}, {"zip": "0", "n": int64(8)}, {"zip": "true"}, {"zip": "1.50", "d": 8.0, "b": true}, {"d": 7.0}}
	return append(append(setDocs(), zoo()...), zooItem{"codes", &Doc{Fields: f, Model: codes}, rows}, zooItem{"code classes", &Doc{Fields: f, Model: reg}, rows})
}

// withModels is the document with other models.
func (d *Doc) withModels(m ...*Mdl) *Doc {
	n := *d
	n.Model, n.More = m[0], m[1:]
	return &n
}

// refRow compares what a model gives for a row with what the reference says of the document that contains it alone.
func (c *Ctx) refRow(got Res, d *Doc, r Row, detail, when string) {
	want := d.Ref(r)
	if want.Kind == resUnspec {
		c.Unspec(want.Reason)
		return
	}
	c.r.Validated++
	c.Outcome(outcomeKey(want))
	if s := diff(got, want); s != "" {
		c.Fail(detail+"\n"+r.String(), "%s: row %v: %s", when, r, s)
	}
}
