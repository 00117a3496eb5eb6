package main

// The reference evaluator: what PMML (and the library's documented output naming) says a document
// predicts for a row. It is written from the specification and works on the harness's own document
// model. Where the specification leaves a choice it says so (unspec) and nothing is compared.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

type resKind int

const (
	resUnspec resKind = iota
	resOut
	resNull
	resErr
)

type Res struct {
	Kind   resKind
	Out    map[string]interface{} // float64, string, or []string: any of these labels
	Reason string
}

func (r Res) String() string {
	switch r.Kind {
	case resOut:
		return fmt.Sprintf("%v", r.Out)
	case resNull:
		return "no prediction"
	case resErr:
		return "an error (" + r.Reason + ")"
	}
	return "anything (" + r.Reason + ")"
}

type unspec struct{ why string }
type refErr struct{ why string }

func dunno(why string)  { panic(unspec{why}) }
func refuse(why string) { panic(refErr{why}) }

type Row map[string]interface{}

func (r Row) clone() Row {
	c := Row{}
	for k, v := range r {
		c[k] = v
	}
	return c
}

// refVal maps a Go value to one of nil, int64, uint64 beyond int64, float64, string, bool.
func refVal(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case int:
		return int64(x)
	case int8:
		return int64(x)
	case int16:
		return int64(x)
	case int32:
		return int64(x)
	case int64:
		return x
	case uint8:
		return int64(x)
	case uint16:
		return int64(x)
	case uint32:
		return int64(x)
	case uint:
		return refVal(uint64(x))
	case uint64:
		if x > math.MaxInt64 {
			return float64(x)
		}
		return int64(x)
	case float32:
		return float64(x)
	case float64, string, bool:
		return x
	case fmt.Stringer:
		return x.String()
	}
	dunno(fmt.Sprintf("value of type %T", v))
	return nil
}

func asNum(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int64:
		return float64(x)
	case string:
		f, err := strconv.ParseFloat(x, 64)
		if err != nil {
			dunno("non-numeric string as a number")
		}
		return f
	}
	dunno(fmt.Sprintf("%T as a number", v))
	return 0
}

func asStr(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case float64:
		if x != 0 && (math.Abs(x) < 1e-3 || math.Abs(x) > 1e15) || math.IsNaN(x) || math.IsInf(x, 0) || math.Signbit(x) && x == 0 {
			dunno("notation of an extreme number")
		}
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	dunno(fmt.Sprintf("%T as a string", v))
	return ""
}

type tri int

const (
	tU tri = iota
	tT
	tF
)

func b3(b bool) tri {
	if b {
		return tT
	}
	return tF
}

// cmp3 compares by operator given less and equal.
func cmp3(op string, lt, eq bool) tri {
	switch op {
	case "equal":
		return b3(eq)
	case "notEqual":
		return b3(!eq)
	case "lessThan":
		return b3(lt)
	case "lessOrEqual":
		return b3(lt || eq)
	case "greaterThan":
		return b3(!lt && !eq)
	case "greaterOrEqual":
		return b3(!lt)
	}
	refuse("operator " + op)
	return tU
}

func refCompare(typ, op string, v interface{}, lit string) tri {
	switch typ {
	case "double", "float":
		l, err := strconv.ParseFloat(lit, 64)
		if err != nil {
			refuse("predicate value " + lit)
		}
		x := asNum(v)
		if math.IsNaN(x) || math.IsNaN(l) {
			dunno("NaN in a comparison")
		}
		return cmp3(op, x < l, x == l)
	case "integer":
		l, err := strconv.ParseInt(lit, 10, 64)
		if err != nil {
			refuse("predicate value " + lit)
		}
		var x int64
		switch n := v.(type) {
		case int64:
			x = n
		case float64:
			if n != math.Trunc(n) || math.Abs(n) > 1<<62 {
				dunno("non-integral value of an integer field")
			}
			x = int64(n)
		case string:
			i, err := strconv.ParseInt(n, 10, 64)
			if err != nil {
				dunno("string that is no integer")
			}
			x = i
		default:
			dunno("type of an integer field's value")
		}
		return cmp3(op, x < l, x == l)
	case "string":
		if op != "equal" && op != "notEqual" {
			refuse("ordering of strings")
		}
		return cmp3(op, false, asStr(v) == lit)
	case "boolean":
		if op != "equal" && op != "notEqual" {
			refuse("ordering of booleans")
		}
		l, err := strconv.ParseBool(lit)
		if err != nil {
			refuse("predicate value " + lit)
		}
		var x bool
		switch n := v.(type) {
		case bool:
			x = n
		case string:
			if n != "true" && n != "false" {
				dunno("string that is no boolean")
			}
			x = n == "true"
		default:
			dunno("type of a boolean field's value")
		}
		return cmp3(op, false, x == l)
	}
	refuse("data type " + typ)
	return tU
}

func refPred(p *Pred, row Row, types map[string]string) tri {
	if p == nil {
		refuse("missing predicate")
	}
	switch p.Kind {
	case "True":
		return tT
	case "False":
		return tF
	case "simple":
		typ, ok := types[p.Field]
		if !ok {
			refuse("unknown field " + p.Field)
		}
		v := refVal(row[p.Field])
		if p.Op == "isMissing" {
			return b3(v == nil)
		}
		if p.Op == "isNotMissing" {
			return b3(v != nil)
		}
		if v == nil {
			return tU
		}
		return refCompare(typ, p.Op, v, p.Value)
	case "set":
		typ, ok := types[p.Field]
		if !ok {
			refuse("unknown field " + p.Field)
		}
		v := refVal(row[p.Field])
		if v == nil {
			return tU
		}
		in := false
		for _, a := range p.Array {
			if refCompare(typ, "equal", v, a) == tT {
				in = true
			}
		}
		return b3(in == (p.Op == "isIn"))
	case "compound":
		vals := make([]tri, len(p.Subs))
		for i, s := range p.Subs {
			vals[i] = refPred(s, row, types)
		}
		return combine3(p.Op, vals)
	}
	refuse("predicate kind " + p.Kind)
	return tU
}

func combine3(op string, vals []tri) tri {
	if len(vals) == 0 {
		dunno("empty compound predicate")
	}
	count := func(x tri) (n int) {
		for _, v := range vals {
			if v == x {
				n++
			}
		}
		return
	}
	switch op {
	case "and":
		if count(tF) > 0 {
			return tF
		}
		if count(tU) > 0 {
			return tU
		}
		return tT
	case "or":
		if count(tT) > 0 {
			return tT
		}
		if count(tU) > 0 {
			return tU
		}
		return tF
	case "xor":
		if count(tU) > 0 {
			return tU
		}
		return b3(count(tT)%2 == 1)
	case "surrogate":
		for _, v := range vals {
			if v != tU {
				return v
			}
		}
		return tU
	}
	refuse("compound operator " + op)
	return tU
}

func refExpr(e *Expr, row Row) interface{} {
	switch e.Kind {
	case "field":
		v := refVal(row[e.Name])
		if v == nil && e.MapMissing != nil {
			return *e.MapMissing
		}
		return v
	case "const":
		if e.DataType != "double" {
			refuse("constant of type " + e.DataType)
		}
		f, err := strconv.ParseFloat(e.Value, 64)
		if err != nil {
			refuse("constant " + e.Value)
		}
		return f
	case "apply":
		v := refApply(e, row)
		if v == nil && e.MapMissing != nil {
			return *e.MapMissing
		}
		if v == nil && e.Default != nil {
			return *e.Default
		}
		return v
	case "map":
		return refMap(e, row)
	}
	refuse("expression " + e.Kind)
	return nil
}

func refApply(e *Expr, row Row) interface{} {
	nargs := func(n int) {
		if len(e.Args) != n {
			refuse("number of arguments of " + e.Name)
		}
	}
	switch e.Name {
	case "+", "-", "*", "/":
		nargs(2)
		a, b := refExpr(e.Args[0], row), refExpr(e.Args[1], row)
		if a == nil || b == nil {
			return nil
		}
		x, y := asNum(a), asNum(b)
		switch e.Name {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		}
		return x / y
	case "sum":
		s, n := 0.0, 0
		for _, a := range e.Args {
			v := refExpr(a, row)
			if v == nil {
				if e.MapMissing != nil {
					return nil
				}
				continue
			}
			s += asNum(v)
			n++
		}
		if n == 0 {
			dunno("sum of nothing")
		}
		return s
	case "isMissing", "isNotMissing":
		nargs(1)
		if e.MapMissing != nil {
			dunno("isMissing with mapMissingTo")
		}
		return (refExpr(e.Args[0], row) == nil) == (e.Name == "isMissing")
	case "if":
		nargs(3)
		c := refExpr(e.Args[0], row)
		if c == nil {
			return nil
		}
		b, ok := c.(bool)
		if s, isStr := c.(string); isStr && (s == "true" || s == "false") {
			b, ok = s == "true", true
		}
		if !ok {
			dunno("condition that is no boolean")
		}
		if b {
			return refExpr(e.Args[1], row)
		}
		return refExpr(e.Args[2], row)
	}
	refuse("function " + e.Name)
	return nil
}

func refMap(e *Expr, row Row) interface{} {
	var vals []string
	var first interface{}
	missing := false
	for i, c := range e.Cols {
		v := refVal(row[c[1]])
		if i == 0 {
			first = v
		}
		if v == nil {
			missing = true
			vals = append(vals, "")
			continue
		}
		vals = append(vals, asStr(v))
	}
	if missing {
		if e.MapMissing != nil {
			return *e.MapMissing
		}
		if e.Default != nil {
			dunno("lookup of a missing value with only a defaultValue")
		}
		return nil
	}
	var out *string
	for _, r := range e.Rows {
		match := true
		for i := range vals {
			if r[i] != vals[i] {
				match = false
			}
		}
		if match {
			if out != nil && *out != r[len(vals)] {
				dunno("lookup with several matching rows")
			}
			o := r[len(vals)]
			out = &o
		}
	}
	if out != nil {
		return *out
	}
	if e.Default != nil {
		return *e.Default
	}
	if len(e.Cols) == 1 {
		return first
	}
	return nil
}

func refDerive(dfs []DF, row Row) {
	for _, df := range dfs {
		v := refExpr(df.Expr, row)
		if df.OpType == "continuous" && v != nil {
			v = asNum(v)
		}
		row[df.Name] = v
	}
}

// Ref is what the document must predict for the row.
func (d *Doc) Ref(row Row) (res Res) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unspec:
				res = Res{Kind: resUnspec, Reason: x.why}
			case refErr:
				res = Res{Kind: resErr, Reason: x.why}
			default:
				panic(r)
			}
		}
	}()
	types := map[string]string{}
	for _, f := range d.Fields {
		types[f.Name] = f.Type
	}
	for _, df := range d.TD {
		types[df.Name] = df.DataType
	}
	return d.refModel(d.Model, row.clone(), types, true)
}

func (d *Doc) refModel(m *Mdl, row Row, types map[string]string, top bool) Res {
	row = row.clone()
	for _, f := range m.MFs {
		if f.Repl != nil && row[f.Name] == nil {
			row[f.Name] = *f.Repl
		}
	}
	if top {
		refDerive(d.TD, row)
	} else {
		// A replacement declared here may supply what a inherited derived field lacked further out.
		for _, df := range m.inherited {
			if row[df.Name] == nil {
				refDerive([]DF{df}, row)
			}
		}
	}
	refDerive(m.LT, row)
	scope := m.inherited
	if top {
		scope = d.TD
	}
	scope = append(append([]DF{}, scope...), m.LT...)
	for _, s := range m.Segs {
		s.Model.inherited = scope
	}
	if len(m.LT) > 0 {
		t2 := map[string]string{}
		for k, v := range types {
			t2[k] = v
		}
		for _, df := range m.LT {
			t2[df.Name] = df.DataType
		}
		types = t2
	}
	switch m.Kind {
	case "tree":
		return d.refTree(m, row, types)
	case "reg":
		return refReg(m, row)
	case "mining":
		return d.refMining(m, row, types)
	}
	refuse("model " + m.Kind)
	return Res{}
}

type cls struct {
	v     string
	p, rc float64
}

func (m *Mdl) target() string {
	t := ""
	for _, f := range m.MFs {
		if f.Usage == "target" {
			return f.Name
		}
		if f.Usage == "predicted" && t == "" {
			t = f.Name
		}
	}
	return t
}

type treeWalk struct {
	d     *Doc
	m     *Mdl
	row   Row
	types map[string]string
}

// own is the class distribution a node itself carries, none if it carries neither score nor classes.
func (w *treeWalk) own(n *Node) []cls {
	if w.m.Func == "regression" {
		if len(n.Dist) > 0 {
			dunno("regression node with a distribution")
		}
		if n.Score == "" {
			return nil
		}
		return []cls{{n.Score, 1, n.RC}}
	}
	if len(n.Dist) > 0 {
		total, seen := 0.0, map[string]bool{}
		for _, s := range n.Dist {
			total += s.RC
			if seen[s.Value] {
				dunno("class listed twice")
			}
			seen[s.Value] = true
		}
		var out []cls
		for _, s := range n.Dist {
			c := cls{s.Value, 0, s.RC}
			if s.Prob != nil {
				c.p = *s.Prob
			} else {
				if total == 0 {
					dunno("distribution without records")
				}
				c.p = s.RC / total
			}
			out = append(out, c)
		}
		if n.Score != "" {
			best := math.Inf(-1)
			for _, c := range out {
				best = math.Max(best, c.p)
			}
			ok := false
			for _, c := range out {
				ok = ok || c.v == n.Score && c.p == best
			}
			if !ok {
				dunno("score contradicts the distribution")
			}
		}
		return out
	}
	if n.Score == "" {
		return nil
	}
	var vals []string
	for _, f := range w.d.Fields {
		if f.Name == w.m.target() {
			vals = f.Values
		}
	}
	if len(vals) == 0 {
		return []cls{{n.Score, 1, n.RC}}
	}
	var out []cls
	hit := false
	for _, v := range vals {
		if v == n.Score {
			out = append(out, cls{v, 1, n.RC})
			hit = true
		} else {
			out = append(out, cls{v, 0, 0})
		}
	}
	if !hit {
		out = append(out, cls{n.Score, 1, n.RC})
	}
	return out
}

// enter is the prediction once n has been entered; ok is false for no prediction.
func (w *treeWalk) enter(n *Node) (dist []cls, ok bool) {
	for i, k := range n.Kids {
		switch refPred(k.Pred, w.row, w.types) {
		case tT:
			return w.enter(k)
		case tF:
			continue
		}
		switch w.m.MVS {
		case "", "none":
			continue
		case "nullPrediction":
			return nil, false
		case "lastPrediction":
			return w.own(n), true
		case "defaultChild":
			var def *Node
			for _, c := range n.Kids {
				if c.ID == n.DefaultChild && c.ID != "" {
					if def != nil {
						dunno("ambiguous default child")
					}
					def = c
				}
			}
			if def == nil {
				dunno("no default child")
			}
			sub, ok := w.enter(def)
			pen := 1.0
			if w.m.Penalty != nil {
				pen = *w.m.Penalty
			}
			if pen == 0 {
				dunno("zero penalty")
			}
			var out []cls
			for _, c := range sub {
				out = append(out, cls{c.v, c.p * pen, c.rc})
			}
			return out, ok
		case "weightedConfidence", "aggregateNodes":
			return w.pool(n, i), true
		}
		dunno("strategy " + w.m.MVS)
	}
	if len(n.Kids) > 0 && w.m.NTC == "returnNullPrediction" {
		return nil, false
	}
	return w.own(n), true
}

func (w *treeWalk) pool(n *Node, from int) []cls {
	if w.m.Func == "regression" {
		dunno("pooling classes of a regression tree")
	}
	var subs [][]cls
	var rcs []float64
	total := 0.0
	for _, k := range n.Kids {
		if refPred(k.Pred, w.row, w.types) == tF {
			continue
		}
		sub, ok := w.enter(k)
		if !ok || len(sub) == 0 {
			dunno("pooling no prediction")
		}
		subs = append(subs, sub)
		rcs = append(rcs, k.RC)
		total += k.RC
	}
	var out []cls
	at := func(v string) *cls {
		for i := range out {
			if out[i].v == v {
				return &out[i]
			}
		}
		out = append(out, cls{v: v})
		return &out[len(out)-1]
	}
	if w.m.MVS == "weightedConfidence" {
		if total == 0 {
			dunno("pooling nodes without records")
		}
		for i, s := range subs {
			for _, c := range s {
				a := at(c.v)
				a.p += c.p * rcs[i] / total
				a.rc += c.rc
			}
		}
		return out
	}
	sum := 0.0
	for _, s := range subs {
		for _, c := range s {
			at(c.v).rc += c.rc
			sum += c.rc
		}
	}
	if sum == 0 {
		dunno("pooling leaves without records")
	}
	for i := range out {
		out[i].p = out[i].rc / sum
	}
	return out
}

func (d *Doc) refTree(m *Mdl, row Row, types map[string]string) Res {
	if m.Func != "classification" && m.Func != "regression" {
		refuse("mining function " + m.Func)
	}
	w := &treeWalk{d, m, row, types}
	switch refPred(m.Root.Pred, row, types) {
	case tF:
		return Res{Kind: resNull}
	case tU:
		switch m.MVS {
		case "", "none", "nullPrediction", "lastPrediction":
			return Res{Kind: resNull}
		}
		dunno("unknown root predicate")
	}
	dist, ok := w.enter(m.Root)
	if !ok || len(dist) == 0 {
		return Res{Kind: resNull}
	}
	if m.Func == "regression" {
		f, err := strconv.ParseFloat(dist[0].v, 64)
		if err != nil {
			refuse("score that is no number")
		}
		return Res{Kind: resOut, Out: map[string]interface{}{"score": f}}
	}
	out := map[string]interface{}{}
	best := math.Inf(-1)
	for _, c := range dist {
		if math.IsNaN(c.p) {
			dunno("NaN probability")
		}
		best = math.Max(best, c.p)
		out["probability("+c.v+")"] = c.p
	}
	if best <= 0 {
		dunno("no class with positive probability")
	}
	var labels []string
	for _, c := range dist {
		if c.p >= best-1e-12*math.Abs(best) {
			labels = append(labels, c.v)
		}
	}
	if m.target() == "" {
		dunno("classification without a target")
	}
	out[m.target()] = labels
	return Res{Kind: resOut, Out: out}
}

func refReg(m *Mdl, row Row) Res {
	for _, f := range m.Out {
		_ = f
	}
	lin := func(t Table) float64 {
		y := t.Intercept
		for _, p := range t.Nums {
			v := refVal(row[p.Name])
			if v == nil {
				refuse("missing predictor " + p.Name)
			}
			e := p.Exp
			if e == 0 {
				e = 1
			} else if e == exp0 {
				e = 0
			}
			x := asNum(v)
			pw := 1.0
			for i := 0; i < e; i++ {
				pw *= x
			}
			for i := 0; i > e; i-- {
				pw /= x
			}
			y += p.Coef * pw
		}
		for _, p := range t.Cats {
			v := refVal(row[p.Name])
			if v == nil {
				dunno("missing categorical predictor")
			}
			if asStr(v) == p.Value {
				y += p.Coef
			}
		}
		return y
	}
	link := func(y float64) float64 {
		switch m.Norm {
		case "", "none":
			return y
		case "softmax", "logit":
			return 1 / (1 + math.Exp(-y))
		case "exp":
			return math.Exp(y)
		case "cloglog":
			return 1 - math.Exp(-math.Exp(y))
		case "cauchit":
			return 0.5 + math.Atan(y)/math.Pi
		case "simplemax":
			dunno("simplemax of one value")
		}
		refuse("normalisation " + m.Norm)
		return 0
	}
	out := map[string]interface{}{}
	switch m.Func {
	case "regression":
		if len(m.Tables) != 1 {
			refuse("number of tables")
		}
		if len(m.Out) != 1 {
			dunno("regression without exactly one output")
		}
		out[m.Out[0].Name] = link(lin(m.Tables[0]))
	case "classification":
		var ys []float64
		for _, t := range m.Tables {
			ys = append(ys, lin(t))
		}
		for _, y := range ys {
			// Softmax and the two-class links have limits.
			if math.IsNaN(y) || math.IsInf(y, 0) && (m.Norm == "simplemax" || m.Norm == "" || m.Norm == "none") {
				dunno("infinite linear form")
			}
		}
		// put reports a class under every output declared for it.
		put := func(i int, p float64) {
			for _, o := range m.Out {
				if o.Value == m.Tables[i].Category {
					out[o.Name] = p
				}
			}
		}
		seen := map[string]bool{}
		for _, t := range m.Tables {
			if seen[t.Category] {
				dunno("two tables for one class")
			}
			seen[t.Category] = true
		}
		names := map[string]bool{}
		for _, o := range m.Out {
			if !seen[o.Value] || names[o.Name] {
				dunno("output without a class")
			}
			names[o.Name] = true
		}
		switch m.Norm {
		case "softmax":
			mx := math.Inf(-1)
			inf := [2]int{}
			for _, y := range ys {
				mx = math.Max(mx, y)
				if math.IsInf(y, 1) {
					inf[1]++
				} else if math.IsInf(y, -1) {
					inf[0]++
				}
			}
			if inf[1] > 1 || inf[0] == len(ys) {
				dunno("softmax of equally infinite scores")
			}
			if inf[1] == 1 {
				for i, y := range ys {
					put(i, map[bool]float64{true: 1}[math.IsInf(y, 1)])
				}
				break
			}
			s := 0.0
			for _, y := range ys {
				s += math.Exp(y - mx)
			}
			for i, y := range ys {
				put(i, math.Exp(y-mx)/s)
			}
		case "simplemax":
			s := 0.0
			for _, y := range ys {
				s += y
			}
			if math.Abs(s) < 1e-9 || math.IsInf(s, 0) || math.IsNaN(s) {
				dunno("simplemax of a zero total")
			}
			for i, y := range ys {
				put(i, y/s)
			}
		default:
			if len(ys) != 2 {
				dunno("link for other than two classes")
			}
			if m.Norm == "exp" {
				dunno("exp of two classes")
			}
			if len(m.Out) != 2 {
				dunno("two-class link without two outputs")
			}
			p := link(ys[0])
			put(0, p)
			put(1, 1-p)
		}
	default:
		refuse("mining function " + m.Func)
	}
	if len(out) == 0 {
		return Res{Kind: resNull}
	}
	return Res{Kind: resOut, Out: out}
}

func (d *Doc) refMining(m *Mdl, row Row, types map[string]string) Res {
	switch m.Method {
	case "sum", "average", "modelChain", "selectFirst":
	default:
		refuse("method " + m.Method)
	}
	if m.Method == "modelChain" || m.Method == "selectFirst" {
		last := Res{Kind: resUnspec, Reason: "no segment applies"}
		for _, s := range m.Segs {
			if refPred(s.Pred, row, types) != tT {
				continue
			}
			r := d.refModel(s.Model, row, types, false)
			if m.Method == "selectFirst" {
				return r
			}
			last = r
			if r.Kind == resUnspec || r.Kind == resErr {
				return r
			}
			for k, v := range r.Out {
				if l, ok := v.([]string); ok {
					if len(l) != 1 {
						dunno("tied label in a chain")
					}
					v = l[0]
				}
				row[k] = v
			}
		}
		return last
	}
	sums := map[string]float64{}
	seen := map[string]bool{}
	for _, o := range m.Out {
		sums[o.Name] = 0
	}
	for _, t := range m.Tgts {
		sums[t.Field] = 0
	}
	n := 0
	for _, s := range m.Segs {
		if refPred(s.Pred, row, types) != tT {
			continue
		}
		r := d.refModel(s.Model, row, types, false)
		if r.Kind == resErr || r.Kind == resUnspec {
			return r
		}
		if r.Kind == resNull {
			dunno("segment without prediction")
		}
		n++
		if m.Func == "classification" {
			for _, o := range m.Out {
				v, ok := r.Out[o.Name]
				if !ok {
					v, ok = r.Out["probability("+o.Value+")"]
				}
				if f, isNum := v.(float64); ok && isNum {
					sums[o.Name] += f
					seen[o.Name] = true
				}
			}
			continue
		}
		v, ok := r.Out["score"]
		if !ok {
			if len(r.Out) != 1 {
				refuse("segment with several outputs")
			}
			for _, v = range r.Out {
			}
		}
		f, isNum := v.(float64)
		if !isNum {
			dunno("segment without a numeric score")
		}
		for k := range sums {
			sums[k] += f
		}
	}
	if n == 0 {
		dunno("no segment applies")
	}
	if m.Func == "classification" {
		for _, o := range m.Out {
			if !seen[o.Name] {
				dunno("output no segment produces")
			}
		}
		if len(m.Tgts) > 0 {
			dunno("target of a classification ensemble")
		}
	}
	out := map[string]interface{}{}
	for k, v := range sums {
		if m.Method == "average" {
			v /= float64(n)
		}
		for _, t := range m.Tgts {
			if t.Field != k {
				continue
			}
			if t.Factor != nil {
				v *= *t.Factor
			}
			if t.Offset != nil {
				v += *t.Offset
			}
			switch t.Cast {
			case "round":
				if math.Abs(math.Abs(v-math.Trunc(v))-0.5) < 1e-6 {
					dunno("rounding a half")
				}
				v = math.Round(v)
			case "ceiling", "floor":
				if math.Abs(v-math.Round(v)) < 1e-6 && v != math.Round(v) {
					dunno("casting next to an integer")
				}
				if t.Cast == "floor" {
					v = math.Floor(v)
				} else {
					v = math.Ceil(v)
				}
			}
		}
		out[k] = v
	}
	return Res{Kind: resOut, Out: out}
}

// same tells whether two numbers are equal up to rounding.
func same(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b))) &&
		math.Abs(a-b) <= 1e-6*math.Max(math.Abs(a), math.Abs(b))+1e-13
}

// Describe a row stably.
func (r Row) String() string {
	var ks []string
	for k := range r {
		ks = append(ks, k)
	}
	sortStrings(ks)
	var b strings.Builder
	b.WriteString("{")
	for i, k := range ks {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%q: %T(%v)", k, r[k], r[k])
	}
	b.WriteString("}")
	return b.String()
}
