package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"strconv"
	"strings"
)

func init() {
	register(&prop{id: "C23", level: "model_checking",
		what:   "one state per document of the other checks' families and transformation of it (consistent renamings of fields, classes, identifiers and columns; reordered declarations; descriptions, informational elements and defaults added; other notations of its numbers); one transition per decode, build or score call; one validated trace per row whose outcome was that of the original document, renamed. Every document of the families at their quick bounds is transformed: the zoo's in every way of the catalogue, the others at the quick tier in every fifth, chosen by the document.",
		assume: []string{"a transformation is left out where the document gives the renamed thing a second meaning (a class that is also a literal, a name declared twice)", "reordered class distributions agree up to rounding, and in the label where one class leads"},
		run:    runC23})
}

// transform rewrites a document; unset parts are left as they are.
type transform struct {
	field, class, id, col               func(string) string
	fields, mfs, outs, cols, dist, tgts bool                // reversed
	extra                               int                 // unused declarations: 1 before, 2 after, 3 on both sides
	named                               func(at int) string // names models, in document order
	at                                  *int
}

func applyTo(f func(string) string, s string) string {
	if f == nil || s == "" {
		return s
	}
	return f(s)
}

// f renames a field; what the library itself names keeps its form.
func (t *transform) f(s string) string {
	if t.field == nil && t.class == nil || s == "" || s == "score" {
		return s
	}
	if strings.HasPrefix(s, "probability(") && strings.HasSuffix(s, ")") {
		return "probability(" + applyTo(t.class, s[12:len(s)-1]) + ")"
	}
	return applyTo(t.field, s)
}

func (t *transform) expr(e *Expr) *Expr {
	if e == nil {
		return nil
	}
	n := *e
	if e.Kind == "field" {
		n.Name = t.f(e.Name)
	}
	n.Args = nil
	for _, a := range e.Args {
		n.Args = append(n.Args, t.expr(a))
	}
	n.Cols, n.Rows = nil, nil
	for _, c := range e.Cols {
		n.Cols = append(n.Cols, [2]string{applyTo(t.col, c[0]), t.f(c[1])})
	}
	n.OutCol = applyTo(t.col, e.OutCol)
	whole := true
	for _, r := range e.Rows {
		whole = whole && len(r) == len(e.Cols)+1
	}
	for _, r := range e.Rows {
		r = append([]string{}, r...)
		if t.cols && whole {
			for i, j := 0, len(r)-2; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
		}
		n.Rows = append(n.Rows, r)
	}
	if t.cols && whole {
		reverse(n.Cols)
	}
	return &n
}

func reverse[T any](s []T) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

func (t *transform) dfs(l []DF) []DF {
	var r []DF
	for _, d := range l {
		d.Name, d.Expr = t.f(d.Name), t.expr(d.Expr)
		r = append(r, d)
	}
	return r
}

// unusedDFs adds derived fields nothing refers to.
func (t *transform) unusedDFs(l []DF, where string) []DF {
	var before, after []DF
	for i := 0; i < 5; i++ {
		df := dfC(fmt.Sprintf("~ unused %s %d", where, i), eK(fmt.Sprint(i)))
		if i%2 == 1 {
			df = DF{Name: df.Name, OpType: "categorical", DataType: "string", Expr: eF("! nowhere")}
		}
		if t.extra&1 == 1 {
			before = append(before, df)
		}
		if t.extra&2 == 2 {
			df.Name = "!" + df.Name
			after = append(after, df)
		}
	}
	return append(append(before, l...), after...)
}

func (t *transform) pred(p *Pred) *Pred {
	if p == nil {
		return nil
	}
	n := *p
	n.Field = t.f(p.Field)
	n.Subs = nil
	for _, s := range p.Subs {
		n.Subs = append(n.Subs, t.pred(s))
	}
	return &n
}

func (t *transform) node(x *Node, cls bool) *Node {
	if x == nil {
		return nil
	}
	n := *x
	n.ID, n.DefaultChild = applyTo(t.id, x.ID), applyTo(t.id, x.DefaultChild)
	n.Pred = t.pred(x.Pred)
	n.Dist, n.Kids = nil, nil
	if cls {
		n.Score = applyTo(t.class, x.Score)
	}
	for _, s := range x.Dist {
		if cls {
			s.Value = applyTo(t.class, s.Value)
		}
		n.Dist = append(n.Dist, s)
	}
	if t.dist && cls {
		reverse(n.Dist)
	}
	for _, k := range x.Kids {
		n.Kids = append(n.Kids, t.node(k, cls))
	}
	return &n
}

func (t *transform) model(x *Mdl) *Mdl {
	n := *x
	cls := x.Func == "classification"
	if t.named != nil {
		n.Name = t.named(*t.at)
		*t.at++
	}
	n.LT = t.unusedDFs(t.dfs(x.LT), "local")
	n.MFs, n.Out, n.Tables, n.Segs, n.Tgts = nil, nil, nil, nil, nil
	seen := map[string]bool{}
	unique := true
	for _, f := range x.MFs {
		unique = unique && !seen[f.Name]
		seen[f.Name] = true
		f.Name = t.f(f.Name)
		n.MFs = append(n.MFs, f)
	}
	if t.mfs && unique {
		reverse(n.MFs)
	}
	var before []MF
	for i := 0; i < 12; i++ {
		if t.extra&1 == 1 {
			before = append(before, MF{Name: fmt.Sprintf("~ unused %d", i)})
		}
		if t.extra&2 == 2 {
			n.MFs = append(n.MFs, MF{Name: fmt.Sprintf("! unused %d", 100-i), Usage: []string{"supplementary", "active"}[i%2]})
		}
	}
	n.MFs = append(before, n.MFs...)
	for _, o := range x.Out {
		o.Name = t.f(o.Name)
		if cls {
			o.Value = applyTo(t.class, o.Value)
		}
		n.Out = append(n.Out, o)
	}
	if t.outs && cls && len(n.Out) > 1 {
		reverse(n.Out)
	}
	n.Root = t.node(x.Root, cls)
	for _, b := range x.Tables {
		if cls {
			b.Category = applyTo(t.class, b.Category)
		}
		nums, cats := b.Nums, b.Cats
		b.Nums, b.Cats = nil, nil
		for _, p := range nums {
			p.Name = t.f(p.Name)
			b.Nums = append(b.Nums, p)
		}
		for _, p := range cats {
			p.Name = t.f(p.Name)
			b.Cats = append(b.Cats, p)
		}
		n.Tables = append(n.Tables, b)
	}
	for _, s := range x.Segs {
		n.Segs = append(n.Segs, &Seg{ID: applyTo(t.id, s.ID), Pred: t.pred(s.Pred), Model: t.model(s.Model)})
	}
	for _, g := range x.Tgts {
		g.Field = t.f(g.Field)
		n.Tgts = append(n.Tgts, g)
	}
	if x.Verif != nil {
		v := *x.Verif
		v.Fields = nil
		for _, f := range x.Verif.Fields {
			f.Field, f.Column = t.f(f.Field), applyTo(t.col, f.Column)
			v.Fields = append(v.Fields, f)
		}
		v.Rows = nil
		for _, r := range x.Verif.Rows {
			var q [][2]string
			for _, cell := range r {
				q = append(q, [2]string{applyTo(t.col, cell[0]), cell[1]})
			}
			v.Rows = append(v.Rows, q)
		}
		n.Verif = &v
	}
	return &n
}

func (t *transform) doc(d *Doc) *Doc {
	n := *d
	t.at = new(int)
	n.Fields = nil
	targets := map[string]bool{}
	eachModel(d.Model, func(m *Mdl) {
		for _, f := range m.MFs {
			if f.Usage == "target" || f.Usage == "predicted" {
				targets[f.Name] = true
			}
		}
	})
	seen := map[string]bool{}
	unique := true
	for _, f := range d.Fields {
		unique = unique && !seen[f.Name]
		seen[f.Name] = true
		if targets[f.Name] {
			vs := f.Values
			f.Values = nil
			for _, v := range vs {
				f.Values = append(f.Values, applyTo(t.class, v))
			}
		}
		f.Name = t.f(f.Name)
		n.Fields = append(n.Fields, f)
	}
	if t.fields && unique {
		reverse(n.Fields)
	}
	n.TD = t.unusedDFs(t.dfs(d.TD), "global")
	var before, after []Field
	for i := 0; i < 12; i++ {
		f := Field{Name: fmt.Sprintf("! unused %d", 100-i), Type: []string{"double", "string", "integer", "boolean"}[i%4]}
		if i%3 == 0 {
			f.Values = []string{"a", "b", "1"}
		}
		g := f
		g.Name = fmt.Sprintf("~ unused %d", i)
		if t.extra&1 == 1 {
			before = append(before, g)
		}
		if t.extra&2 == 2 {
			after = append(after, f)
		}
	}
	n.Fields = append(append(before, n.Fields...), after...)
	n.Model = t.model(d.Model)
	return &n
}

func (t *transform) row(r Row) Row {
	q := Row{}
	for k, v := range r {
		q[t.f(k)] = v
	}
	return q
}

func (t *transform) res(r Res, targets map[string]bool) Res {
	if r.Kind != resOut {
		return r
	}
	o := map[string]interface{}{}
	for k, v := range r.Out {
		if s, ok := v.(string); ok && targets[k] {
			v = applyTo(t.class, s)
		}
		o[t.f(k)] = v
	}
	return Res{Kind: resOut, Out: o}
}

func eachModel(m *Mdl, f func(*Mdl)) {
	f(m)
	for _, s := range m.Segs {
		eachModel(s.Model, f)
	}
}

func eachPred(p *Pred, f func(*Pred)) {
	if p == nil {
		return
	}
	f(p)
	for _, s := range p.Subs {
		eachPred(s, f)
	}
}

func eachExpr(e *Expr, f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, s := range e.Args {
		eachExpr(s, f)
	}
}

// docFacts is what decides which transformations keep a document's meaning.
type docFacts struct {
	names   []string // of fields, sorted
	targets map[string]bool
	classed bool // classes are nothing but classes
	ids     []string
}

func factsOf(d *Doc, rows []Row) docFacts {
	names, targets, ids := map[string]bool{}, map[string]bool{}, map[string]bool{}
	used := map[string]bool{} // fields whose values are looked at
	add := func(s string) {
		if s != "" {
			names[s] = true
		}
	}
	var exprs func(l []DF)
	exprs = func(l []DF) {
		for _, df := range l {
			add(df.Name)
			eachExpr(df.Expr, func(e *Expr) {
				if e.Kind == "field" {
					add(e.Name)
					used[e.Name] = true
				}
				for _, c := range e.Cols {
					add(c[1])
					used[c[1]] = true
				}
			})
		}
	}
	preds := func(p *Pred) {
		eachPred(p, func(p *Pred) {
			add(p.Field)
			used[p.Field] = true
		})
	}
	for _, f := range d.Fields {
		add(f.Name)
	}
	exprs(d.TD)
	eachModel(d.Model, func(m *Mdl) {
		exprs(m.LT)
		for _, f := range m.MFs {
			add(f.Name)
			if f.Usage == "target" || f.Usage == "predicted" {
				targets[f.Name] = true
			}
		}
		for _, o := range m.Out {
			add(o.Name)
		}
		if m.Root != nil {
			eachNode(m.Root, func(n *Node) { preds(n.Pred); ids[n.ID], ids[n.DefaultChild] = true, true })
		}
		for _, t := range m.Tables {
			for _, p := range t.Nums {
				add(p.Name)
				used[p.Name] = true
			}
			for _, p := range t.Cats {
				add(p.Name)
				used[p.Name] = true
			}
		}
		for _, s := range m.Segs {
			preds(s.Pred)
			ids[s.ID] = true
		}
	})
	for _, r := range rows {
		for k := range r {
			add(k)
		}
	}
	f := docFacts{names: sortedKeys2(names), ids: sortedKeys2(ids), targets: targets, classed: true}
	for t := range targets {
		f.classed = f.classed && !used[t]
	}
	return f
}

// renaming maps the i-th of n sorted names to the form's i-th of n names.
func renaming(names []string, form func(i, n int, s string) string) func(string) string {
	m := map[string]string{}
	for i, s := range names {
		m[s] = form(i, len(names), s)
	}
	return func(s string) string {
		if r, ok := m[s]; ok {
			return r
		}
		return "unnamed " + s
	}
}

// fieldForms are ways to name fields. They are injective.
var fieldForms = []func(i, n int, s string) string{
	func(i, n int, s string) string { return fmt.Sprintf("v%04d", n-i) }, // the order of names reversed
	func(i, n int, s string) string {
		return fmt.Sprintf("%s <%d> & \"é\" %s", "field", i, strings.Repeat("long ", i%7))
	},
	func(i, n int, s string) string { // differing in case only
		return strings.Map(func(r rune) rune {
			if r == '1' {
				return 'A'
			}
			return 'a'
		}, fmt.Sprintf("%011b", i))
	},
	func(i, n int, s string) string { // named like numbers, functions, keywords and columns
		words := []string{"1", "if", "true", "+", "sum", "isMissing", "data:c", "probability", "score1", "Score", "null", "*", "0.5", "predictedValue", "TreeModel", "-1", "nil", "x(y)", "NaN", "/", "label", "default", "root"}
		if i < len(words) {
			return words[i]
		}
		return fmt.Sprint(i)
	},
	func(i, n int, s string) string { return strings.Repeat(" ", i+1) + "\u00a0日本" },
	equalNumbers,
	func(i, n int, s string) string { return strings.Repeat(" ", i/2) + "n" + strings.Repeat(" ", i-i/2) }, // differing in blanks only
	func(i, n int, s string) string { // written alike, encoded differently
		a := []string{"\u00e9", "e\u0301", "\u212b", "\u00c5", "A\u030a", "\ufb01", "fi", "\u00df", "ss", "\uff41", "a", "\u0131", "i", "I", "\u0130", "k", "\u212a", "K"}
		return a[i%len(a)] + strings.Repeat("x", i/len(a))
	},
}

// equalNumbers writes the number one in ever new ways.
func equalNumbers(i, n int, s string) string {
	if i%2 == 0 {
		return strings.Repeat("0", i/2) + "1"
	}
	return "1." + strings.Repeat("0", i/2)
}

// inTurn renames what it meets by its turn.
func inTurn(form func(i, n int, s string) string) func(string) string {
	m := map[string]string{}
	return func(s string) string {
		if _, ok := m[s]; !ok {
			m[s] = form(len(m), 0, s)
		}
		return m[s]
	}
}

type catalogue struct {
	name string
	mk   func(f docFacts) *transform
}

func transformations() []catalogue {
	var l []catalogue
	for k, form := range fieldForms {
		l = append(l, catalogue{fmt.Sprint("fields renamed ", k), func(f docFacts) *transform { return &transform{field: renaming(f.names, form)} }})
	}
	col := func(s string) string { return "zz-" + s + ".1" }
	for k, at := range []int{2, 5, 6, 7} {
		form := fieldForms[at]
		l = append(l, catalogue{fmt.Sprint("classes and columns renamed in turn ", k), func(f docFacts) *transform {
			if !f.classed {
				return nil
			}
			return &transform{class: inTurn(form), col: inTurn(fieldForms[2])}
		}})
	}
	for k, cl := range []func(string) string{
		func(s string) string { return strings.Repeat("class_", 50) + s }, // far longer than names usually are
		func(s string) string { return "<" + s + "> é & 'so' \"on\"" },
		func(s string) string { return "1" + s },
	} {
		l = append(l, catalogue{fmt.Sprint("classes and columns renamed ", k), func(f docFacts) *transform {
			if !f.classed {
				return nil
			}
			return &transform{class: cl, col: col}
		}})
	}
	for k, form := range fieldForms {
		l = append(l, catalogue{fmt.Sprint("identifiers renamed ", k), func(f docFacts) *transform { return &transform{id: renaming(f.ids, form)} }})
	}
	for k, named := range []func(at int) string{
		func(int) string { return "m" },
		func(at int) string { return fmt.Sprintf("model %d <é>", -at) },
		func(at int) string { return []string{"m", "", "score"}[at%3] },
	} {
		l = append(l, catalogue{fmt.Sprint("models named ", k), func(f docFacts) *transform { return &transform{named: named} }})
	}
	for k := 1; k <= 3; k++ {
		for _, fields := range []bool{false, true} {
			l = append(l, catalogue{fmt.Sprintf("unused declarations %d, dictionary reversed: %v", k, fields), func(f docFacts) *transform { return &transform{extra: k, fields: fields} }})
		}
	}
	l = append(l,
		catalogue{"dictionary reversed", func(f docFacts) *transform { return &transform{fields: true} }},
		catalogue{"schema reversed", func(f docFacts) *transform { return &transform{mfs: true} }},
		catalogue{"outputs and columns reversed", func(f docFacts) *transform { return &transform{outs: true, cols: true} }},
		catalogue{"distributions reversed", func(f docFacts) *transform { return &transform{dist: true} }})
	return l
}

// numberForms are other notations of the same number.
var numberForms = []func(f float64) string{
	func(f float64) string { return strconv.FormatFloat(f, 'e', -1, 64) },
	func(f float64) string {
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if strings.Contains(s, ".") {
			s += "000"
		} else {
			s += ".00"
		}
		if s[0] == '-' {
			return "-0" + s[1:]
		}
		return "+0" + s
	},
	func(f float64) string { return strings.ToUpper(strconv.FormatFloat(f, 'E', -1, 64)) },
}

var numberAttrs = map[string]bool{"coefficient": true, "intercept": true, "recordCount": true, "probability": true, "missingValuePenalty": true, "rescaleFactor": true, "rescaleConstant": true, "precision": true, "zeroThreshold": true}

// numberSites calls f for every place of a document where a floating-point number stands, with its text; f returns
// the text to put there.
func numberSites(d *Doc, root *xnode, f func(string) string) {
	numeric := map[string]int{}
	types := func(name, t string) {
		if t == "double" || t == "float" {
			if numeric[name] == 0 {
				numeric[name] = 1
			}
		} else {
			numeric[name] = -1
		}
	}
	for _, f := range d.Fields {
		types(f.Name, f.Type)
	}
	for _, f := range d.TD {
		types(f.Name, f.DataType)
	}
	eachModel(d.Model, func(m *Mdl) {
		for _, f := range m.LT {
			types(f.Name, f.DataType)
		}
	})
	re := func(s string) string {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil || math.IsInf(v, 0) || math.IsNaN(v) || strings.ContainsAny(s, "xXpPiInN_") {
			return s
		}
		return f(s)
	}
	attr := func(e *xnode, n string) string {
		for _, a := range e.attrs {
			if a[0] == n {
				return a[1]
			}
		}
		return ""
	}
	regression := false
	var walk func(e *xnode)
	walk = func(e *xnode) {
		old := regression
		if e.name == "TreeModel" {
			regression = attr(e, "functionName") == "regression"
		}
		for i, a := range e.attrs {
			switch {
			case numberAttrs[a[0]], a[0] == "score" && e.name == "Node" && regression, a[0] == "value" && e.name == "SimplePredicate" && numeric[attr(e, "field")] == 1:
				e.attrs[i][1] = re(a[1])
			}
		}
		if e.name == "Constant" && attr(e, "dataType") == "double" && len(e.kids) == 1 {
			e.kids[0].text = re(e.kids[0].text)
		}
		for _, s := range e.kids {
			if e.name == "SimpleSetPredicate" && s.name == "Array" && numeric[attr(e, "field")] == 1 && attr(s, "type") == "real" && len(s.kids) == 1 {
				w := strings.Fields(s.kids[0].text)
				for i := range w {
					w[i] = re(w[i])
				}
				s.kids[0].text = strings.Join(w, " ")
			}
			if s.name != "" {
				walk(s)
			}
		}
		regression = old
	}
	walk(root)
}

// renumbered writes the numbers of a document in another notation: all, or every other one.
func renumbered(d *Doc, x string, form func(float64) string, every int) string {
	root := parseX(x)
	k := 0
	numberSites(d, root, func(s string) string {
		if k++; k%every != 0 {
			return s
		}
		f, _ := strconv.ParseFloat(s, 64)
		return form(f)
	})
	return root.String()
}

// literals puts every way of writing a number at every place for one, and compares with its shortest notation.
func (c *Ctx) literals(d *Doc, rows []Row, part int) {
	x := d.XML()
	n := 0
	numberSites(d, parseX(x), func(s string) string { n++; return s })
	at := func(site int, lit string) string {
		root, k := parseX(x), 0
		numberSites(d, root, func(s string) string {
			if k++; k == site+1 {
				return lit
			}
			return s
		})
		return root.String()
	}
	run := func(x string) (verify bool, rs []Res, built bool) {
		c.curDetail = x
		m, err := build(x)
		c.r.Transitions++
		if err != nil {
			return
		}
		for _, r := range rows {
			rs = append(rs, score(m, r))
			c.r.Transitions++
		}
		return m.Verify() == nil, rs, true
	}
	type known struct {
		verify, built bool
		rs            []Res
	}
	for site := 0; site < n; site++ {
		if site%8 != part {
			continue
		}
		memo := map[uint64]*known{}
		for _, lit := range decimals(c.Thorough) {
			f, _ := strconv.ParseFloat(lit, 64)
			y := strconv.FormatFloat(f, 'g', -1, 64)
			b := math.Float64bits(f)
			if memo[b] == nil {
				k := &known{}
				k.verify, k.rs, k.built = run(at(site, y))
				memo[b] = k
			}
			k := memo[b]
			c.r.States++
			z := at(site, lit)
			verify, rs, built := run(z)
			detail := at(site, y) + "\n" + z
			if built != k.built || verify != k.verify {
				c.Fail(detail, "number %d written %s: accepted %v, verifies %v; written %s: %v, %v", site, lit, built, verify, y, k.built, k.verify)
			}
			for i := range rs {
				c.r.Validated++
				if !identical(rs[i], k.rs[i]) {
					c.Fail(detail, "number %d written %s: row %v gives %v; written %s: %v", site, lit, rows[i], rs[i], y, k.rs[i])
				}
			}
		}
	}
}

func leading(r Res) bool {
	best, second := math.Inf(-1), math.Inf(-1)
	for _, v := range r.Out {
		if f, ok := v.(float64); ok {
			if f > best {
				best, second = f, best
			} else if f > second {
				second = f
			}
		}
	}
	return best-second > 1e-9*math.Abs(best)
}

func (c *Ctx) transformed(x string, d *Doc, rows []Row) {
	type base struct {
		built  bool
		verify bool
		res    []Res
	}
	run := func(x string, rows []Row) (b base) {
		c.curDetail = x
		m, err := build(x)
		c.r.Transitions++
		if err != nil {
			return
		}
		b.built = true
		b.verify = m.Verify() == nil
		for _, r := range rows {
			b.res = append(b.res, score(m, r))
			c.r.Transitions++
		}
		return
	}
	want := run(x, rows)
	// Rows that differ from one another in what the original gives for them come first.
	if most := c.rowsPer; most > 0 && len(rows) > most {
		seen := map[string]int{}
		var first, second, rest []int
		for i := range rows {
			k := "refused"
			if want.built {
				k = fmt.Sprint(want.res[i].Kind, want.res[i].Out)
			}
			switch seen[k]++; seen[k] {
			case 1:
				first = append(first, i)
			case 2:
				second = append(second, i)
			default:
				rest = append(rest, i)
			}
		}
		pick := append(append(first, second...), rest...)[:most]
		c.r.Unspec["rows beyond the first so many per document, in the order of the outcomes they are the first or second to have"] += int64(len(rows) - most)
		var rs []Row
		var w []Res
		for _, i := range pick {
			rs = append(rs, rows[i])
			if want.built {
				w = append(w, want.res[i])
			}
		}
		rows, want.res = rs, w
	}
	check := func(name string, y string, t *transform, targets map[string]bool) {
		c.r.States++
		qs := make([]Row, len(rows))
		for i, r := range rows {
			qs[i] = t.row(r)
		}
		got := run(y, qs)
		detail := func(i int) string {
			s := "original:\n" + x + "\n" + name + ":\n" + y
			if i >= 0 {
				s += "\n" + rows[i].String() + "\n" + qs[i].String()
			}
			return s
		}
		if got.built != want.built || got.verify != want.verify {
			c.Fail(detail(-1), "%s: accepted %v, verifies %v; originally %v, %v", name, got.built, got.verify, want.built, want.verify)
		}
		for i := range want.res {
			c.r.Validated++
			w, g := t.res(want.res[i], targets), got.res[i]
			same := identical(g, w)
			if t.dist && g.Kind == w.Kind && len(g.Out) == len(w.Out) {
				same = true
				for k, v := range w.Out {
					f, isF := v.(float64)
					h, isH := g.Out[k].(float64)
					if isF != isH || isF && !(math.Abs(f-h) <= 1e-9*math.Max(1, math.Abs(f)) || math.IsNaN(f) && math.IsNaN(h)) || !isF && leading(w) && v != g.Out[k] {
						same = false
					}
				}
			}
			if !same {
				c.Fail(detail(i), "%s: row %v gives %v, but the original gives %v for %v", name, qs[i], g, want.res[i], rows[i])
			}
		}
	}
	f := factsOf(d, rows)
	xml := d.XML() == x
	turn := 0
	if c.rowsPer > 0 && !c.full {
		h := fnv.New32a()
		h.Write([]byte(x))
		turn = int(h.Sum32()%5) + 1
	}
	for k, cat := range c23catalogue {
		if turn > 0 && (k+turn)%5 != 0 {
			continue
		}
		t := cat.mk(f)
		if t == nil || !xml {
			c.Outcome("left out: " + cat.name)
			continue
		}
		y := t.doc(d).XML()
		if y == x {
			continue
		}
		c.Outcome(cat.name)
		check(cat.name, y, t, f.targets)
	}
	for k, desc := range descriptions {
		if turn > 0 && (k+turn)%5 > 1 {
			continue
		}
		if y := described(x, desc.at); y != x {
			c.Outcome(desc.name)
			check(desc.name, y, &transform{}, nil)
		}
	}
	for k, form := range numberForms {
		for every := 1; every <= 2; every++ {
			if turn > 0 && (k+every+turn)%5 != 0 {
				continue
			}
			if y := renumbered(d, x, form, every); y != x {
				c.Outcome(fmt.Sprint("numbers in notation ", k))
				check(fmt.Sprint("numbers in notation ", k, ", every ", every), y, &transform{}, nil)
			}
		}
	}
}

var c23catalogue = transformations()

func runC23(c *Ctx) {
	items := append(append(setDocs(), zoo()...), deepDocs()...)
	for i := range items {
		it := &items[i]
		c.Case(it.name, func() {
			d := it.verification()
			c.transformed(d.XML(), d, it.rows)
		})
		for part := 0; part < 8; part++ {
			c.Case(fmt.Sprintf("literals %s %d", it.name, part), func() {
				c.Outcome("literals")
				c.literals(it.doc, it.rows, part)
			})
		}
	}
	fams := []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C13"}
	c.rowsPer = 8
	if c.Thorough {
		fams = append(fams, "C02", "C09")
		c.rowsPer = 48
	}
	c.full = c.Thorough
	c.Families(c.transformed, false, fams...)
}
