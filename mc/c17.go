package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&prop{id: "C17", level: "model_checking",
		what:   "one state per document variant (a zoo document with verification data, with one neutral rewriting at one place, with every pair of extension insertions on the small documents, or with one rewriting everywhere); transitions are decode, build, score and verify calls; one validated trace per comparison of an outcome with the unmodified document's. Every place of every document is used for every kind of rewriting.",
		assume: []string{"the original documents are right (other checks decide that)", "documents are UTF-8 (encoding/xml without a charset reader)"},
		run:    runC17})
}

// neutralBase holds what a document does before it is rewritten.
type neutralBase struct {
	rows    []Row
	res     []Res
	models  int
	verify  []bool
	loadErr bool
}

func observe(c *Ctx, x string, rows []Row) neutralBase {
	b := neutralBase{rows: rows}
	c.curDetail = x
	p, err := decode(x)
	c.r.Transitions++
	if err != nil {
		b.loadErr = true
		return b
	}
	b.models = len(p.Models)
	for i := range p.Models {
		m, err := modelAt(p, i)
		c.r.Transitions++
		if err != nil {
			b.loadErr = true
			return b
		}
		for _, r := range rows {
			b.res = append(b.res, score(m, r))
			c.r.Transitions++
		}
		b.verify = append(b.verify, m.Verify() == nil)
		c.r.Transitions++
	}
	return b
}

// same says how the behaviours differ; errors are compared as errors, not by message.
func (b neutralBase) same(o neutralBase) string {
	if b.loadErr != o.loadErr {
		return fmt.Sprintf("refused: %v, originally: %v", o.loadErr, b.loadErr)
	}
	if b.models != o.models {
		return fmt.Sprintf("%d models, originally %d", o.models, b.models)
	}
	for i := range b.res {
		p, q := b.res[i], o.res[i]
		p.Reason, q.Reason = "", ""
		if !identical(p, q) {
			return fmt.Sprintf("row %v gives %v, originally %v", b.rows[i%len(b.rows)], o.res[i], b.res[i])
		}
	}
	if fmt.Sprint(b.verify) != fmt.Sprint(o.verify) {
		return fmt.Sprintf("verifies: %v, originally: %v", o.verify, b.verify)
	}
	return ""
}

func elementName(full string) string { return full[strings.Index(full, ":")+1:] }

// schemaExt tells whether the PMML schema lets an element contain Extension elements.
func schemaExt(e *xnode) bool {
	switch {
	case strings.Contains(e.name, "data:"), e.name == "row", e.name == "Array", e.name == "Constant", e.name == "Extension":
		return false
	}
	return true
}

func extensionKinds() []string {
	return []string{
		`<Extension/>`,
		`<Extension extender="ACME" name="n" value="1&lt;2"/>`,
		`<Extension>some text, 12 &amp; 13</Extension>`,
		`<Extension><Node id="evil" score="999"><True/><ScoreDistribution value="play" recordCount="7"/></Node><Segment><True/></Segment></Extension>`,
		`<Extension name="a"><Extension name="b"><Extension/></Extension></Extension>`,
		`<Extension><SimplePredicate field="nofield" operator="equal" value="1"/><False/><MiningField name="temp" missingValueReplacement="-40"/><DerivedField name="temp"><Constant dataType="double">1</Constant></DerivedField></Extension>`,
		`<Extension><x:anything xmlns:x="urn:x" a="1"><x:PMML><row><data:temp>1</data:temp></row></x:PMML></x:anything>&#65;<![CDATA[<Node>]]><!-- c --></Extension>`,
		`<Extension><RegressionTable intercept="7"/><NumericPredictor name="temp" coefficient="3"/><Output><OutputField name="zz"/></Output><Target field="y" rescaleFactor="9"/><VerificationField field="zz" column="data:zz" precision="1"/><InlineTable><row/></InlineTable><FieldRef field="amount"/><Apply function="nope"/><TreeModel/></Extension>`,
	}
}

func setDocs() []zooItem {
	// small documents with arrays, tables, constants and every kind of predicate
	t := &Mdl{Kind: "tree", Func: "regression", MVS: "none", MFs: active("outlook", "temp"), LT: []DF{dfC("k", eA("if", eA("isMissing", eF("temp")), eK("12.5"), eA("+", eF("temp"), eK("200"))))},
		Root: &Node{ID: "1", Score: "1", Pred: pTrue(), Kids: []*Node{
			{ID: "2", Score: "2", Pred: &Pred{Kind: "set", Field: "outlook", Op: "isIn", Array: []string{"sun ny", `q"uote`, "", "é<&"}, ArrayType: "string"}},
			{ID: "3", Score: "3", Pred: &Pred{Kind: "set", Field: "temp", Op: "isIn", Array: []string{"1", "2.5", "1e3"}, ArrayType: "real"}},
			{ID: "4", Score: "4", Pred: pC("or", pS("k", "lessThan", "13"), pC("and", pS("outlook", "equal", "a&b"), pTrue()))},
			{ID: "5", Score: "5", Pred: pFalse()}}}}
	f := []Field{{Name: "outlook", Type: "string", OpType: "categorical"}, {Name: "temp", Type: "double", OpType: "continuous"}}
	rows := []Row{{"outlook": "sun ny"}, {"outlook": `q"uote`}, {"outlook": ""}, {"outlook": "é<&"}, {"outlook": "a&b"}, {"outlook": "a&b", "temp": 3.0}, {"temp": 2.5}, {"temp": 1000.0}, {"outlook": "x", "temp": 7.0}, {}}
	r := &Mdl{Kind: "reg", Func: "regression", MFs: []MF{{Name: "outlook"}, {Name: "temp", Repl: sp("4")}},
		Tables: []Table{{Intercept: 1, Nums: []NumPred{{"temp", 2, 2}, {"m", 10, 0}}, Cats: []CatPred{{"outlook", "a&b", 100}}}}, Out: []OutF{{Name: "y", Feature: "predictedValue"}},
		LT: []DF{{Name: "m", OpType: "continuous", DataType: "double", Expr: &Expr{Kind: "map", Cols: [][2]string{{"c1", "outlook"}, {"c2", "temp"}}, OutCol: "out", DataType: "double", Default: sp("0.5"), MapMissing: sp("0.25"), Rows: [][]string{{"a&b", "3", "1"}, {"a&b", "4", "2"}, {"x", "3", "3"}}}}}}
	rrows := []Row{{"outlook": "a&b", "temp": 3.0}, {"outlook": "a&b"}, {"outlook": "x", "temp": 3.0}, {"temp": 3.0}, {"outlook": "y"}}
	return []zooItem{{"sets", &Doc{Fields: f, Model: t}, rows}, {"table", &Doc{Fields: f, Model: r}, rrows}}
}

func runC17(c *Ctx) {
	items := append(append(setDocs(), zoo()...), severalModels()...)
	for zi := range items {
		it := &items[zi]
		if len(it.doc.More) > 0 {
			neutralDoc(c, it.name, it.doc, it.rows, true)
			continue
		}
		good := it.verification()
		bad := breakVerification(good)
		for vi, vd := range []*Doc{good, bad} {
			if vi == 1 && (bad == nil || zi%3 != 0 && !c.Thorough) {
				continue
			}
			neutralDoc(c, fmt.Sprintf("%s/%d", it.name, vi), vd, it.rows, zi < 2)
		}
	}
	// encoding/xml takes xmlns:score="…" for an attribute called score: see known_findings.txt.
	for _, after := range []bool{false, true} {
		c.Case(fmt.Sprintf("prefix-named-score-declared-after-it=%v", after), func() {
			x := items[0].doc.XML()
			base := observe(c, x, items[0].rows)
			root := parseX(x)
			for _, e := range root.elems() {
				for _, a := range e.attrs {
					if e.name != "Node" || a[0] != "score" {
						continue
					}
					y := root.with(e, func(e *xnode) {
						ns := [2]string{"xmlns:score", "urn:other"}
						if after {
							e.attrs = append(e.attrs, ns)
						} else {
							e.attrs = append([][2]string{ns}, e.attrs...)
						}
					})
					c.r.States++
					c.r.Validated++
					if s := base.same(observe(c, y, items[0].rows)); s != "" {
						c.Fail("original:\n"+x+"\nrewritten:\n"+y, "a namespace prefix called score: %s", s)
					}
				}
			}
		})
	}
}

// severalModels are documents with two and three models of different classes.
func severalModels() []zooItem {
	names := []string{"temp", "amount"}
	tree := func(k float64) *Mdl { return zooRegTree(k) }
	reg := func() *Mdl {
		return &Mdl{Kind: "reg", Func: "regression", MFs: active(names...), Tables: []Table{{Intercept: 0.5, Nums: []NumPred{{"temp", 0.25, 0}, {"amount", 2, 2}}}}, Out: []OutF{{Name: "o"}}}
	}
	mining := func() *Mdl {
		return &Mdl{Kind: "mining", Func: "regression", Method: "sum", MFs: active(names...), Out: []OutF{{Name: "s"}}, Segs: []*Seg{{ID: "1", Pred: pTrue(), Model: constTree("3")}, {ID: "2", Pred: pS("temp", "greaterThan", "60"), Model: constTree("4")}}}
	}
	f := []Field{{Name: "temp", Type: "double", OpType: "continuous"}, {Name: "amount", Type: "double", OpType: "continuous"}}
	rows := []Row{{"temp": 70.0, "amount": 1.5}, {"temp": 50.0, "amount": -1.0}, {"temp": 70.0}, {"amount": 2.0}, {}}
	item := func(n string, ms ...*Mdl) zooItem {
		return zooItem{n, &Doc{Fields: f, Model: ms[0], More: ms[1:], TD: []DF{dfC("unused", eK("3"))}}, rows}
	}
	return []zooItem{item("tree, reg", tree(2), reg()), item("reg, mining, tree", reg(), mining(), tree(5)), item("mining, tree", mining(), tree(1))}
}

// breakVerification makes the last expectation of the last row wrong.
func breakVerification(d *Doc) *Doc {
	n := *d
	m := *d.Model
	v := *m.Verif
	if len(v.Rows) == 0 {
		return nil
	}
	v.Rows = append([][][2]string{}, v.Rows...)
	last := append([][2]string{}, v.Rows[len(v.Rows)-1]...)
	if len(last) == 0 || !strings.HasPrefix(last[len(last)-1][0], "c") {
		return nil
	}
	last[len(last)-1][1] = "12345.5"
	v.Rows[len(v.Rows)-1] = last
	m.Verif = &v
	n.Model = &m
	return &n
}

func neutralDoc(c *Ctx, name string, d *Doc, rows []Row, small bool) {
	x := d.XML()
	var base neutralBase
	var have bool
	prep := func() {
		if have {
			return
		}
		have = true
		base = observe(c, x, rows)
		if base.loadErr {
			c.Fail(x, "the document is refused")
		}
		c.Outcome(fmt.Sprintf("verifies: %v", base.verify))
	}
	try := func(kind string, mk func() string) {
		c.Case(name+" "+kind, func() {
			prep()
			y := mk()
			got := observe(c, y, rows)
			c.r.States++
			c.r.Validated++
			if s := base.same(got); s != "" {
				c.Fail("original:\n"+x+"\nrewritten:\n"+y, "%s: %s", kind, s)
			}
			c.Sample(map[string]interface{}{"case": c.name, "document": y})
		})
	}
	root := parseX(x)
	els := root.elems()
	exts := extensionKinds()
	for ei, e := range els {
		where := fmt.Sprintf("%s#%d", e.name, ei)
		for i := 0; i <= len(e.kids); i++ {
			if e.textOnly() {
				continue
			}
			if schemaExt(e) {
				for k, s := range exts {
					try(fmt.Sprintf("extension %d in %s at %d", k, where, i), func() string { return root.with(e, func(e *xnode) { e.insert(i, rawX(s)) }) })
				}
			}
			for _, s := range []string{"<!-- <Node><True/></Node> -->", "<?pi some <data> ?>", "\r\n\t  "} {
				if strings.HasPrefix(e.name, "data:") && s[0] != '<' {
					continue
				}
				try(fmt.Sprintf("%.6q in %s at %d", s, where, i), func() string { return root.with(e, func(e *xnode) { e.insert(i, rawX(s)) }) })
			}
		}
		if e.textOnly() {
			txt := e.kids[0].text
			for _, f := range textForms(txt) {
				try(fmt.Sprintf("text as %.40q in %s", f, where), func() string { return root.with(e, func(e *xnode) { e.kids = []*xnode{rawX(f)} }) })
			}
			if e.name == "Array" {
				try("array blanks in "+where, func() string {
					return root.with(e, func(e *xnode) { e.kids = []*xnode{rawX("\n\t" + attrEsc.Replace(txt) + " \n")} })
				})
			}
		}
		for ai := range e.attrs {
			v := e.attrs[ai][1]
			for k, form := range attrForms(v) {
				try(fmt.Sprintf("attribute form %d of %s in %s", k, e.attrs[ai][0], where), func() string {
					return root.with(e, func(e *xnode) {
						var w strings.Builder
						w.WriteString("<" + e.name)
						for j, a := range e.attrs {
							if j == ai {
								w.WriteString(" " + a[0] + form)
							} else {
								w.WriteString(" " + a[0] + `="` + attrEsc.Replace(a[1]) + `"`)
							}
						}
						w.WriteString(">")
						for _, k := range e.kids {
							k.render(&w)
						}
						w.WriteString("</" + e.name + ">")
						*e = *rawX(w.String())
					})
				})
			}
		}
		if !strings.Contains(e.name, ":") {
			try("prefix on "+where, func() string {
				return root.with(e, func(e *xnode) {
					e.attrs = append(e.attrs, [2]string{"xmlns:zz", "http://www.dmg.org/PMML-4_3"})
					e.name = "zz:" + e.name
				})
			})
			try("foreign attributes on "+where, func() string {
				return root.with(e, func(e *xnode) {
					e.attrs = append([][2]string{{"xmlns:q", "urn:q"}, {"x-unknown", "1"}}, e.attrs...)
				})
			})
		}
		if len(e.kids) == 0 {
			try("long form of "+where, func() string {
				return root.with(e, func(e *xnode) { e.kids = []*xnode{rawX("")} })
			})
		}
	}
	// Everywhere at once.
	everywhere := func(kind string, f func(e *xnode)) {
		try(kind+" everywhere", func() string {
			r := root.clone()
			for _, e := range r.elems() {
				f(e)
			}
			return r.String()
		})
	}
	for k, s := range exts {
		everywhere(fmt.Sprint("extension ", k), func(e *xnode) {
			if schemaExt(e) && !e.textOnly() {
				for i := len(e.kids); i >= 0; i-- {
					e.insert(i, rawX(s))
				}
			}
		})
	}
	for _, s := range []string{"<!-- <True/> -->", "<?x y?>", "\n  ", "\n<!-- a --> <?x?>\t<!-- b -->\n"} {
		everywhere(fmt.Sprintf("%q", s), func(e *xnode) {
			if !e.textOnly() && !strings.HasPrefix(e.name, "data:") {
				for i := len(e.kids); i >= 0; i-- {
					e.insert(i, rawX(s))
				}
			}
		})
	}
	everywhere("prefix", func(e *xnode) {
		if e.name == "PMML" {
			e.attrs[0][0] = "xmlns:p"
		}
		if !strings.Contains(e.name, ":") {
			e.name = "p:" + e.name
		}
	})
	try("no default namespace", func() string {
		return root.with(root, func(e *xnode) { e.attrs = e.attrs[1:] })
	})
	everywhere("table prefix", func(e *xnode) {
		// the prefix of the cells only names a namespace
		if strings.HasPrefix(e.name, "data:") {
			e.name = "dd:" + e.name[5:]
			e.attrs = append(e.attrs, [2]string{"xmlns:dd", "http://jpmml.org/jpmml-model/InlineTable"})
		}
	})
	for k, head := range []string{`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n", `<?xml version='1.0' encoding='utf-8'?>`, "<!-- c -->\n<?p i?>\n", "<!DOCTYPE PMML>", "\n\n  ", "\ufeff"} {
		try(fmt.Sprint("prolog ", k), func() string { return head + x })
		try(fmt.Sprint("prolog and epilog ", k), func() string { return head + x + "\n<!-- done --><?end?>\n" })
	}
	try("line ends inside tags", func() string {
		return strings.NewReplacer(`" `, "\"\r\n\t", `"/>`, "\"\n/>", `">`, "\" >").Replace(x)
	})
	try("single quotes", func() string {
		r := root.clone()
		s := r.String()
		// no apostrophes occur in the documents
		var w strings.Builder
		inTag := false
		for _, ch := range s {
			switch {
			case ch == '<':
				inTag = true
			case ch == '>':
				inTag = false
			}
			if ch == '"' && inTag {
				ch = '\''
			}
			w.WriteRune(ch)
		}
		return w.String()
	})
	if !small && !c.Thorough {
		return
	}
	// Every pair of places (small documents; all documents when thorough).
	type place struct{ e, i int }
	var ps []place
	for ei, e := range els {
		if schemaExt(e) && !e.textOnly() {
			for i := 0; i <= len(e.kids); i++ {
				ps = append(ps, place{ei, i})
			}
		}
	}
	if !small && len(ps) > 120 {
		return
	}
	pair := []string{exts[0], exts[3]}
	for a := range ps {
		for b := a; b < len(ps); b++ {
			try(fmt.Sprintf("extension pair %v %v", ps[a], ps[b]), func() string {
				r := root.clone()
				l := r.elems()
				// later position first, so that indexes stay valid
				l[ps[b].e].insert(ps[b].i, rawX(pair[1]))
				l[ps[a].e].insert(ps[a].i, rawX(pair[0]))
				return r.String()
			})
		}
	}
}

func charRefs(s, format string) string {
	var w strings.Builder
	for _, r := range s {
		fmt.Fprintf(&w, format, r)
	}
	return w.String()
}

func textForms(s string) []string {
	esc := attrEsc.Replace(s)
	forms := []string{charRefs(s, "&#%d;"), charRefs(s, "&#x%X;"), "<![CDATA[" + s + "]]>", esc + "<!-- c -->", "<!-- c -->" + esc, "<?p i?>" + esc, "<![CDATA[]]>" + esc}
	rs := []rune(s)
	for i := 1; i < len(rs) && i < 12; i++ {
		a, b := string(rs[:i]), string(rs[i:])
		forms = append(forms, attrEsc.Replace(a)+"<!-- -->"+attrEsc.Replace(b), attrEsc.Replace(a)+"<![CDATA["+b+"]]>", "<![CDATA["+a+"]]>"+charRefs(b, "&#%d;"))
	}
	return forms
}

func attrForms(v string) []string {
	esc := attrEsc.Replace(v)
	return []string{
		"='" + strings.ReplaceAll(esc, "'", "&apos;") + "'",
		" =\n\t\"" + esc + "\"",
		"=\"" + charRefs(v, "&#%d;") + "\"",
		"='" + charRefs(v, "&#x%x;") + "'",
	}
}
