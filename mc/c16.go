//go:build held

package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&prop{id: "C16", level: "model_checking",
		what:   "one state per document text; one transition per decode or score call; one validated trace per decoded document whose complete contents (all models, elements, attributes, texts, in order) equalled what its text says. Spaces: every document as a whole; every subset of the attributes of every element; every attribute value form; every attribute order; every order of differently named siblings; every multiplicity of every repeatable child up to a bound (and long ones); every tree, predicate and expression shape up to a size; every sequence of models.",
		assume: []string{"the table of elements in mc/canon.go names the supported subset: elements and attributes the library's data model has no place for are left out", "empty optional containers equal absent ones"},
		run:    runC16})
}

func runC16(c *Ctx) {
	check := func(x string) {
		c.curDetail = x
		c.r.States++
		p, err := decode(x)
		c.r.Transitions++
		if err != nil {
			c.Fail(x, "the document is refused: %v", err)
		}
		got, want := canonStr(heldPMML(p)), canonStr(expectTree(parseX(x)))
		c.r.Validated++
		if got != want {
			c.Fail(x+"\n--- decoded:\n"+got+"--- written:\n"+want, "decoded and written document differ: %s", firstDiff(got, want))
		}
		c.Outcome(fmt.Sprintf("%d elements", strings.Count(want, "\n")/20*20))
	}
	try := func(name string, mk func() string) {
		c.Case(name, func() {
			x := mk()
			check(x)
			c.Sample(map[string]interface{}{"case": name, "document": x})
		})
	}
	var names []string
	docs := map[string]string{}
	rows := map[string][]Row{}
	for _, n := range richNames {
		names, docs["rich-"+n], rows["rich-"+n] = append(names, "rich-"+n), richDocs()[n], richRows
	}
	items := append(setDocs(), zoo()...)
	for i := range items {
		it := &items[i]
		names, docs[it.name], rows[it.name] = append(names, it.name), it.verification().XML(), it.rows
	}
	for _, name := range names {
		x := docs[name]
		try(name, func() string { return x })
		root := parseX(x)
		els := root.elems()
		rich := strings.HasPrefix(name, "rich")
		for ei, e := range els {
			where := fmt.Sprintf("%s %s#%d", name, e.name, ei)
			if strings.Contains(e.name, ":") {
				if rich || c.Thorough {
					for k, txt := range []string{"", " ", "a b", "1e5", "<&>\"'", "é€𝄞", "\t\n", strings.Repeat("long ", 200)} {
						try(fmt.Sprint(where, " text ", k), func() string {
							return root.with(e, func(e *xnode) { e.kids = []*xnode{{text: txt}} })
						})
					}
				}
				continue
			}
			// attribute subsets
			na := len(e.attrs)
			if e.name == "PMML" {
				continue
			}
			if rich || c.Thorough {
				all := 1<<uint(na) - 1
				for mask := 0; mask <= all; mask++ {
					if na > 10 && popcount(mask) > 2 && popcount(all&^mask) > 2 {
						continue // all of at most two present or at most two absent
					}
					try(fmt.Sprintf("%s attributes %b", where, mask), func() string {
						return root.with(e, func(e *xnode) {
							var a [][2]string
							for i := range e.attrs {
								if mask>>uint(i)&1 == 1 {
									a = append(a, e.attrs[i])
								}
							}
							e.attrs = a
						})
					})
				}
				for ai := range e.attrs {
					for k, v := range attrValues(e.name, e.attrs[ai][0]) {
						try(fmt.Sprintf("%s %s value %d", where, e.attrs[ai][0], k), func() string {
							return root.with(e, func(e *xnode) { e.attrs[ai][1] = v })
						})
					}
				}
			}
			// attribute orders
			if na > 1 {
				orders := func(f func([]int)) {
					if na <= 4 {
						perms(na, f)
						return
					}
					for r := 0; r < na; r++ {
						rot, rev := make([]int, na), make([]int, na)
						for i := range rot {
							rot[i] = (i + r) % na
							rev[i] = (na - 1 - i + r) % na
						}
						f(rot)
						f(rev)
					}
				}
				orders(func(p []int) {
					try(fmt.Sprint(where, " attribute order ", p), func() string {
						return root.with(e, func(e *xnode) {
							var a [][2]string
							for _, i := range p {
								a = append(a, e.attrs[i])
							}
							e.attrs = a
						})
					})
				})
			}
			if e.name == "row" || e.name == "Array" || e.name == "Constant" {
				continue
			}
			// orders of differently named siblings: permute the groups and interleave them
			sp := specs[e.name]
			byGroup := [][]*xnode{}
			for _, grp := range sp.groups {
				var l []*xnode
				for _, k := range e.kids {
					if k.isElem() && contains(grp, elementName(k.name)) {
						l = append(l, k)
					}
				}
				if len(l) > 0 {
					byGroup = append(byGroup, l)
				}
			}
			if len(byGroup) > 1 {
				rws := rows[name]
				base := neutralBase{}
				reorder := func(kids []*xnode) string {
					return root.with(e, func(e *xnode) { e.kids = kids })
				}
				scored := func(tag string, kids []*xnode) {
					c.Case(where+" order "+tag, func() {
						if base.rows == nil {
							base = observe(c, x, rws)
						}
						y := reorder(kids)
						check(y)
						if s := base.same(observe(c, y, rws)); s != "" {
							c.Fail("original:\n"+x+"\nreordered:\n"+y, "another order of sibling elements changes the outcome: %s", s)
						}
					})
				}
				n := len(byGroup)
				emit := func(p []int) {
					var kids []*xnode
					for _, gi := range p {
						kids = append(kids, byGroup[gi]...)
					}
					scored(fmt.Sprint(p), kids)
				}
				if n <= 4 || c.Thorough && n <= 5 {
					perms(n, emit)
				} else {
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							p := []int{}
							for k := 0; k < n; k++ {
								if k != i {
									p = append(p, k)
								}
							}
							p = append(p[:j], append([]int{i}, p[j:]...)...)
							emit(p)
						}
					}
				}
				// round robin, from either end
				for dir := 0; dir < 2; dir++ {
					var kids []*xnode
					for i := 0; ; i++ {
						any := false
						for k := range byGroup {
							gi := k
							if dir == 1 {
								gi = n - 1 - k
							}
							if i < len(byGroup[gi]) {
								kids, any = append(kids, byGroup[gi][i]), true
							}
						}
						if !any {
							break
						}
					}
					scored(fmt.Sprint("interleaved ", dir), kids)
				}
			}
			// same-named siblings reversed, removed, repeated
			for gi, l := range byGroup {
				if !repeatable(e.name, elementName(l[0].name)) {
					continue
				}
				rest := []*xnode{}
				for gj, o := range byGroup {
					if gj != gi {
						rest = append(rest, o...)
					}
				}
				with := func(l []*xnode) func() string {
					return func() string {
						return root.with(e, func(e *xnode) { e.kids = append(append([]*xnode{}, rest...), l...) })
					}
				}
				var rev []*xnode
				for i := range l {
					rev = append(rev, l[len(l)-1-i])
				}
				try(fmt.Sprint(where, " reversed ", gi), with(rev))
				try(fmt.Sprint(where, " none ", gi), with(nil))
				for i := range l {
					try(fmt.Sprintf("%s without %d.%d", where, gi, i), with(append(append([]*xnode{}, l[:i]...), l[i+1:]...)))
					try(fmt.Sprintf("%s twice %d.%d", where, gi, i), with(append(append([]*xnode{}, l[:i+1]...), l[i:]...)))
				}
				for _, m := range []int{3, 10, 100} {
					if len(l[0].elems()) > 8 && m > 3 {
						continue
					}
					var many []*xnode
					for i := 0; i < m; i++ {
						k := l[i%len(l)].clone()
						if len(k.attrs) > 0 && specs[k.name].attrs != nil && k.attrs[0][0] != "type" {
							k.attrs[0][1] = fmt.Sprint("v", i)
							if a := k.attrs[0][0]; a == "closure" || a == "intercept" {
								k.attrs[0][1] = fmt.Sprint(i)
							}
						}
						many = append(many, k)
					}
					c.Bound("repetitions of a child", m)
					try(fmt.Sprintf("%s %d times %d", where, m, gi), with(many))
				}
			}
		}
	}
	for _, name := range names {
		c16Equal(name, docs[name], strings.HasPrefix(name, "rich") || c.Thorough, try)
		c16Extended(name, docs[name], try)
	}
	c16Shapes(c, try)
}

// c16Equal gives attributes the value of another attribute: of the same element, in either order, of its
// parent and of the sibling before it.
func c16Equal(name, x string, pairs bool, try func(string, func() string)) {
	root := parseX(x)
	parent, before := map[*xnode]*xnode{}, map[*xnode]*xnode{}
	for _, e := range root.elems() {
		var last *xnode
		for _, k := range e.kids {
			if k.isElem() {
				parent[k], before[k] = e, last
				last = k
			}
		}
	}
	texty := func(e *xnode, attr string) bool {
		for _, a := range specs[e.name].attrs {
			if a.name == attr {
				return a.kind == 's' || a.kind == 'S'
			}
		}
		return false
	}
	for ei, e := range root.elems() {
		where := fmt.Sprintf("%s %s#%d", name, e.name, ei)
		for i := range e.attrs {
			if !texty(e, e.attrs[i][0]) {
				continue
			}
			for _, other := range []*xnode{parent[e], before[e]} {
				if other == nil {
					continue
				}
				if v, ok := other.attr(e.attrs[i][0]); ok && v != e.attrs[i][1] {
					try(fmt.Sprintf("%s %s as in %s", where, e.attrs[i][0], other.name), func() string {
						return root.with(e, func(e *xnode) { e.attrs[i][1] = v })
					})
				}
			}
			if !pairs {
				continue
			}
			for j := range e.attrs {
				if i == j {
					continue
				}
				for flip := 0; flip < 2; flip++ {
					try(fmt.Sprintf("%s %s as %s %d", where, e.attrs[i][0], e.attrs[j][0], flip), func() string {
						return root.with(e, func(e *xnode) {
							e.attrs[i][1] = e.attrs[j][1]
							if flip == 1 {
								for p, q := 0, len(e.attrs)-1; p < q; p, q = p+1, q-1 {
									e.attrs[p], e.attrs[q] = e.attrs[q], e.attrs[p]
								}
							}
						})
					})
				}
			}
		}
	}
}

// c16Extended puts Extension elements into one element, into all of a name, into all but the first or
// the last of a name, and into all: none may show up, or go missing, anywhere else.
func c16Extended(name, x string, try func(string, func() string)) {
	root := parseX(x)
	byName := map[string][]int{}
	var order []string
	for ei, e := range root.elems() {
		for _, g := range specs[e.name].groups {
			if contains(g, "Extension") {
				if byName[e.name] == nil {
					order = append(order, e.name)
				}
				byName[e.name] = append(byName[e.name], ei)
			}
		}
	}
	put := func(tag string, at []int, last bool) {
		try(fmt.Sprintf("%s extensions %s last=%v", name, tag, last), func() string {
			in := map[int]bool{}
			for _, i := range at {
				in[i] = true
			}
			cp := root.clone()
			for ei, e := range cp.elems() {
				if in[ei] {
					k := elemX("Extension", "extender", "E", "name", fmt.Sprint("n", ei), "value", "v")
					if last {
						e.kids = append(e.kids, k)
					} else {
						e.kids = append([]*xnode{k}, e.kids...)
					}
				}
			}
			return cp.String()
		})
	}
	var all []int
	for _, n := range order {
		l := byName[n]
		all = append(all, l...)
		for _, last := range []bool{false, true} {
			put("all "+n, l, last)
			if len(l) > 1 {
				put("not first "+n, l[1:], last)
				put("not last "+n, l[:len(l)-1], last)
			}
		}
		for _, i := range l {
			put(fmt.Sprint(n, "#", i), []int{i}, true)
			put(fmt.Sprint(n, "#", i), []int{i}, false)
		}
	}
	put("everywhere", all, false)
	put("everywhere", all, true)
}

func popcount(x int) int {
	n := 0
	for ; x > 0; x &= x - 1 {
		n++
	}
	return n
}

var repeatables = strings.Fields("PMML>TreeModel PMML>RegressionModel PMML>MiningModel Header>Annotation DataDictionary>DataField DataField>Interval DataField>Value TransformationDictionary>DerivedField LocalTransformations>DerivedField DerivedField>Value MapValues>FieldColumnPair MapValues>InlineTable InlineTable>row MiningSchema>MiningField Output>OutputField Targets>Target Target>TargetValue Node>ScoreDistribution Node>Node RegressionModel>RegressionTable RegressionTable>NumericPredictor RegressionTable>CategoricalPredictor Segmentation>Segment VerificationFields>VerificationField DataDictionary>Taxonomy")

func repeatable(parent, kid string) bool {
	return contains(repeatables, parent+">"+kid) || parent == "CompoundPredicate" && contains(gPred, kid) || parent == "Apply" && contains(gExpr, kid)
}

func attrValues(elem, attr string) []string {
	for _, a := range specs[elem].attrs {
		if a.name != attr {
			continue
		}
		switch a.kind {
		case 's', 'S':
			return []string{"", " ", "plain", " padded ", "two words", "<&>\"'", "é€𝄞", "tab\tand\nnewline", "0", "true", strings.Repeat("x", 3000)}
		case 'n', 'N', 'P':
			return []string{"0", "-0", "1", "-1", "0.1", "1e10", "-2.5E-3", "123456789.125", "1.7976931348623157e308", "5e-324", "+4", ".5", "007"}
		case 'i', 'I':
			return []string{"0", "1", "42", "2147483647"}
		case 'E':
			return []string{"0", "1", "-1", "3", "10"}
		case 'b', 'B':
			return []string{"true", "false", "1", "0"}
		}
	}
	return nil
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(nothing)", "(nothing)"
		if i < len(x) {
			p = strings.TrimSpace(x[i])
		}
		if i < len(y) {
			q = strings.TrimSpace(y[i])
		}
		if p != q {
			return fmt.Sprintf("decoded %.200s; written %.200s", p, q)
		}
	}
	return ""
}

// c16Shapes decodes every node tree, compound predicate, expression and ensemble shape up to a size.
func c16Shapes(c *Ctx, try func(string, func() string)) {
	max := 6
	if c.Thorough {
		max = 8
	}
	leafs := []*Pred{pTrue(), pFalse(), pS("x", "equal", "1"), pS("s", "isMissing", ""), {Kind: "set", Field: "s", Op: "isIn", Array: []string{"a", "b"}, ArrayType: "string"}}
	doc := func(m *Mdl) string { return (&Doc{Fields: zooFields, Model: m}).XML() }
	for n := 1; n <= max; n++ {
		c.Bound("nodes of a shape", n)
		shapes(n, func(s []int) {
			try(fmt.Sprint("node shape ", s), func() string {
				i := 0
				var mk func() *Node
				mk = func() *Node {
					me := i
					i++
					nd := &Node{ID: fmt.Sprint("n", me), Score: fmt.Sprint("s", me), RC: float64(me * 3), DefaultChild: fmt.Sprint("d", me), Pred: leafs[me%len(leafs)]}
					for k := 0; k <= me%3; k++ {
						nd.Dist = append(nd.Dist, SD{fmt.Sprint("c", me, ".", k), float64(10*me + k), nil})
					}
					for k := 0; k < s[me]; k++ {
						nd.Kids = append(nd.Kids, mk())
					}
					return nd
				}
				return doc(&Mdl{Kind: "tree", Func: "classification", Root: mk()})
			})
			try(fmt.Sprint("predicate shape ", s), func() string {
				i := 0
				ops := []string{"and", "or", "xor", "surrogate"}
				var mk func() *Pred
				mk = func() *Pred {
					me := i
					i++
					if s[me] == 0 {
						return leafs[me%len(leafs)]
					}
					p := pC(ops[me%4])
					for k := 0; k < s[me]; k++ {
						p.Subs = append(p.Subs, mk())
					}
					return p
				}
				p := mk()
				m := &Mdl{Kind: "mining", Func: "regression", Method: "sum", Segs: []*Seg{{ID: "a", Pred: p, Model: &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "r", Score: "1", Pred: p}}}}}
				return doc(m)
			})
			try(fmt.Sprint("expression shape ", s), func() string {
				i := 0
				var mk func() *Expr
				mk = func() *Expr {
					me := i
					i++
					if s[me] == 0 {
						return []*Expr{eF(fmt.Sprint("f", me)), eK(fmt.Sprint(me)), {Kind: "map", Cols: [][2]string{{"a", fmt.Sprint("g", me)}}, OutCol: "o", Rows: [][]string{{"1", fmt.Sprint(me)}}}}[me%3]
					}
					e := eA(fmt.Sprint("fn", me))
					for k := 0; k < s[me]; k++ {
						e.Args = append(e.Args, mk())
					}
					return e
				}
				d := &Doc{Fields: zooFields, Model: zooReg()}
				d.TD = []DF{dfC("a", mk()), dfC("b", eF("a"))}
				return d.XML()
			})
			if n <= 5 {
				try(fmt.Sprint("segment shape ", s), func() string {
					i := 0
					var mk func() *Mdl
					mk = func() *Mdl {
						me := i
						i++
						if s[me] == 0 {
							return []*Mdl{constTree(fmt.Sprint(me)), {Kind: "reg", Func: "regression", Tables: []Table{{Intercept: float64(me)}}, Out: []OutF{{Name: "y"}}}}[me%2]
						}
						m := &Mdl{Kind: "mining", Func: "regression", Method: []string{"sum", "average", "modelChain", "selectFirst"}[me%4], MFs: active(fmt.Sprint("m", me))}
						for k := 0; k < s[me]; k++ {
							m.Segs = append(m.Segs, &Seg{ID: fmt.Sprint(me, ".", k), Pred: leafs[k%len(leafs)], Model: mk()})
						}
						return m
					}
					return doc(mk())
				})
			}
		})
	}
	for _, deep := range []int{10, 100, 500} {
		c.Bound("depth", deep)
		try(fmt.Sprint("deep nodes ", deep), func() string {
			nd := &Node{ID: "leaf", Score: "0", Pred: pTrue()}
			for i := 1; i < deep; i++ {
				nd = &Node{ID: fmt.Sprint(i), Score: fmt.Sprint(i), Pred: pTrue(), Kids: []*Node{{ID: fmt.Sprint("b", i), Score: "-1", Pred: pFalse()}, nd, {ID: fmt.Sprint("a", i), Score: "-2", Pred: pTrue()}}}
			}
			return doc(&Mdl{Kind: "tree", Func: "regression", Root: nd})
		})
		for side := 0; side < 3; side++ {
			try(fmt.Sprint("deep nodes ", deep, " side ", side), func() string {
				nd := &Node{ID: "leaf", Score: "0", Pred: pTrue()}
				for i := 1; i < deep; i++ {
					kids := [][]*Node{{nd}, {nd, {ID: fmt.Sprint("a", i), Score: "-2", Pred: pTrue()}}, {{ID: fmt.Sprint("a", i), Score: "-2", Pred: pFalse()}, nd}}[side]
					nd = &Node{ID: fmt.Sprint(i), Score: fmt.Sprint(i), Pred: pTrue(), Kids: kids}
				}
				return doc(&Mdl{Kind: "tree", Func: "regression", Root: nd})
			})
			try(fmt.Sprint("deep predicate and expression ", deep, " side ", side), func() string {
				p, e := pTrue(), eF("x")
				for i := 1; i < deep; i++ {
					q := pS("x", "equal", fmt.Sprint(i))
					p = pC([]string{"and", "or", "surrogate"}[i%3], [][]*Pred{{p, q}, {q, p}, {p, pFalse(), q}}[side]...)
					k := eK(fmt.Sprint(i))
					e = eA([]string{"+", "sum"}[i%2], [][]*Expr{{e, k}, {k, e}, {e, e}}[side][:]...)
					if side == 2 {
						e.Args = []*Expr{eA("*", k, k), e.Args[0]}
					}
				}
				d := &Doc{Fields: zooFields, TD: []DF{dfC("d", e)}, Model: &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "1", Score: "1", Pred: p}}}
				return d.XML()
			})
		}
		try(fmt.Sprint("deep predicate and expression ", deep), func() string {
			p, e := pTrue(), eF("x")
			for i := 1; i < deep; i++ {
				p = pC([]string{"and", "or", "surrogate"}[i%3], pFalse(), p, pS("x", "equal", fmt.Sprint(i)))
				e = eA("+", e, eK(fmt.Sprint(i)))
			}
			d := &Doc{Fields: zooFields, TD: []DF{dfC("d", e)}, Model: &Mdl{Kind: "tree", Func: "regression", Root: &Node{ID: "1", Score: "1", Pred: p}}}
			return d.XML()
		})
		try(fmt.Sprint("deep ensembles ", deep), func() string {
			m := constTree("1")
			for i := 1; i < deep; i++ {
				m = &Mdl{Kind: "mining", Func: "regression", Method: "sum", Segs: []*Seg{{ID: fmt.Sprint(i), Pred: pTrue(), Model: m}}}
			}
			return doc(m)
		})
	}
	// Every sequence of models.
	ms := []string{`<TreeModel functionName="regression"><MiningSchema/><Node id="%d" score="%d"><True/></Node></TreeModel>`, `<RegressionModel functionName="regression"><MiningSchema/><Output><OutputField name="y%d"/></Output><RegressionTable intercept="%d"/></RegressionModel>`, `<MiningModel functionName="regression"><MiningSchema/><Segmentation multipleModelMethod="sum"><Segment id="%d%d"><True/><TreeModel functionName="regression"><MiningSchema/><Node score="3"><True/></Node></TreeModel></Segment></Segmentation></MiningModel>`, `<Scorecard/><!-- %d %d -->`}
	head := (&Doc{Fields: zooFields, Model: constTree("1")}).XML()
	head = head[:strings.Index(head, "<TreeModel")]
	for n := 0; n <= 4; n++ {
		vectors(n, len(ms), func(v []int) {
			try(fmt.Sprint("models ", v), func() string {
				s := head
				for i, k := range v {
					s += fmt.Sprintf(ms[k], i, i+10)
				}
				return s + "</PMML>"
			})
		})
	}
}
