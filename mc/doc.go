package main

// The harness's own document model and its XML renderer. Nothing here uses the library.

import (
	"fmt"
	"strconv"
	"strings"
)

type Doc struct {
	Fields []Field
	TD     []DF
	Model  *Mdl
	More   []*Mdl // further models of the document
}

type Field struct {
	Name, Type, OpType string
	Values             []string
}

type DF struct {
	Name, OpType, DataType string
	Expr                   *Expr
}

// Expr kinds: field, const, apply, map.
type Expr struct {
	Kind       string
	Name       string // field name or function
	Value      string // constant literal
	Args       []*Expr
	MapMissing *string
	Default    *string
	Cols       [][2]string // map: column (local name), field
	OutCol     string
	Rows       [][]string // map: cells in the order of Cols, then the output cell
	DataType   string
}

// Pred kinds: True, False, simple, set, compound.
type Pred struct {
	Kind      string
	Field, Op string
	Value     string
	Array     []string
	ArrayType string
	Subs      []*Pred
}

// confidences is the list of confidences that score distributions are written with in turn, none if empty. No
// prediction depends on them.
var confidences []string

func confidence(i int) string {
	if len(confidences) == 0 {
		return ""
	}
	return confidences[i%len(confidences)]
}

type SD struct {
	Value string
	RC    float64
	Prob  *float64
}

// notation maps numbers to the notation they are written in, where not the shortest one.
type notation map[float64]string

type Node struct {
	ID, Score, DefaultChild string
	RC                      float64
	Dist                    []SD
	Kids                    []*Node
	Pred                    *Pred
}

type MF struct {
	Name, Usage string
	Repl        *string
	More        string // further attribute and its value, separated by =
}

func (f MF) more() []string {
	if i := strings.Index(f.More, "="); i > 0 {
		return []string{f.More[:i], f.More[i+1:]}
	}
	return nil
}

type CatPred struct {
	Name, Value string
	Coef        float64
}

type NumPred struct {
	Name string
	Coef float64
	Exp  int // 0: absent, exp0: written as 0
}

type Table struct {
	Category  string
	Intercept float64
	Nums      []NumPred
	Cats      []CatPred
}

type OutF struct {
	Name, Feature, Value string
}

type Tgt struct {
	Field          string
	Factor, Offset *float64
	Cast           string
}

type Seg struct {
	ID    string
	Pred  *Pred
	Model *Mdl
}

type VField struct {
	Field, Column string
	Precision     string
	Zero          string // zeroThreshold
}

type Verification struct {
	Fields []VField
	Rows   [][][2]string // column (local name), text

	RowCount, FieldCount string
}

// Mdl kinds: tree, reg, mining.
type Mdl struct {
	Kind, Func string
	Name       string // modelName
	MFs        []MF
	LT         []DF
	Out        []OutF
	Verif      *Verification

	MVS, NTC string
	Penalty  *float64
	Root     *Node

	Norm   string
	Tables []Table

	Method string
	Segs   []*Seg
	Tgts   []Tgt

	inherited []DF // reference evaluator: derived fields of the enclosing scopes
}

func fp(f float64) *float64 { return &f }
func sp(s string) *string   { return &s }

var attrEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;")

type xw struct{ b strings.Builder }

// open writes a start tag; pairs with an empty value and a name ending in ? are left out.
func (w *xw) open(name string, attrs ...string) { w.tag(name, ">", attrs...) }
func (w *xw) leaf(name string, attrs ...string) { w.tag(name, "/>", attrs...) }
func (w *xw) end(name string)                   { w.b.WriteString("</" + name + ">") }
func (w *xw) tag(name, close string, attrs ...string) {
	w.b.WriteString("<" + name)
	for i := 0; i+1 < len(attrs); i += 2 {
		k, v := attrs[i], attrs[i+1]
		if strings.HasSuffix(k, "?") {
			if v == "" {
				continue
			}
			k = k[:len(k)-1]
		}
		w.b.WriteString(" " + k + `="` + attrEsc.Replace(v) + `"`)
	}
	w.b.WriteString(close)
}
func (w *xw) text(s string) { w.b.WriteString(attrEsc.Replace(s)) }

var written notation

func num(f float64) string {
	if s, ok := written[f]; ok {
		return s
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}
func optnum(f *float64) string {
	if f == nil {
		return ""
	}
	return num(*f)
}

const exp0 = 1 << 20

func optint(i int) string {
	if i == 0 {
		return ""
	}
	if i == exp0 {
		return "0"
	}
	return fmt.Sprint(i)
}

const pmmlNS = `xmlns="http://www.dmg.org/PMML-4_3" xmlns:data="http://jpmml.org/jpmml-model/InlineTable"`

func (d *Doc) XML() string {
	w := &xw{}
	w.b.WriteString(`<PMML ` + pmmlNS + ` version="4.3"><Header/><DataDictionary>`)
	for _, f := range d.Fields {
		if len(f.Values) == 0 {
			w.leaf("DataField", "name", f.Name, "optype?", f.OpType, "dataType?", f.Type)
			continue
		}
		w.open("DataField", "name", f.Name, "optype?", f.OpType, "dataType?", f.Type)
		for _, v := range f.Values {
			w.leaf("Value", "value", v)
		}
		w.end("DataField")
	}
	w.end("DataDictionary")
	if len(d.TD) > 0 {
		w.open("TransformationDictionary")
		for _, df := range d.TD {
			df.xml(w)
		}
		w.end("TransformationDictionary")
	}
	d.Model.xml(w)
	for _, m := range d.More {
		m.xml(w)
	}
	w.end("PMML")
	return w.b.String()
}

func (df *DF) xml(w *xw) {
	w.open("DerivedField", "name", df.Name, "optype?", df.OpType, "dataType?", df.DataType)
	df.Expr.xml(w)
	w.end("DerivedField")
}

func optattr(p *string, name string) []string {
	if p == nil {
		return nil
	}
	return []string{name, *p}
}

func (e *Expr) xml(w *xw) {
	switch e.Kind {
	case "field":
		w.leaf("FieldRef", append([]string{"field", e.Name}, optattr(e.MapMissing, "mapMissingTo")...)...)
	case "const":
		w.open("Constant", "dataType?", e.DataType)
		w.text(e.Value)
		w.end("Constant")
	case "apply":
		at := append([]string{"function", e.Name}, optattr(e.MapMissing, "mapMissingTo")...)
		at = append(at, optattr(e.Default, "defaultValue")...)
		w.open("Apply", at...)
		for _, a := range e.Args {
			a.xml(w)
		}
		w.end("Apply")
	case "map":
		at := append([]string{"outputColumn", "data:" + e.OutCol, "dataType?", e.DataType}, optattr(e.MapMissing, "mapMissingTo")...)
		at = append(at, optattr(e.Default, "defaultValue")...)
		w.open("MapValues", at...)
		for _, c := range e.Cols {
			w.leaf("FieldColumnPair", "field", c[1], "column", "data:"+c[0])
		}
		w.open("InlineTable")
		for _, r := range e.Rows {
			w.open("row")
			for i, c := range r {
				n := e.OutCol
				if i < len(e.Cols) {
					n = e.Cols[i][0]
				}
				w.open("data:" + n)
				w.text(c)
				w.end("data:" + n)
			}
			w.end("row")
		}
		w.end("InlineTable")
		w.end("MapValues")
	}
}

func (p *Pred) xml(w *xw) {
	if p == nil {
		return
	}
	switch p.Kind {
	case "True", "False":
		w.leaf(p.Kind)
	case "simple":
		if p.Op == "isMissing" || p.Op == "isNotMissing" {
			w.leaf("SimplePredicate", "field", p.Field, "operator", p.Op)
		} else {
			w.leaf("SimplePredicate", "field", p.Field, "operator", p.Op, "value", p.Value)
		}
	case "set":
		w.open("SimpleSetPredicate", "field", p.Field, "booleanOperator", p.Op)
		w.open("Array", "n", fmt.Sprint(len(p.Array)), "type", p.ArrayType)
		for i, s := range p.Array {
			if i > 0 {
				w.b.WriteString(" ")
			}
			if p.ArrayType == "string" {
				s = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
			}
			w.text(s)
		}
		w.end("Array")
		w.end("SimpleSetPredicate")
	case "compound":
		w.open("CompoundPredicate", "booleanOperator", p.Op)
		for _, s := range p.Subs {
			s.xml(w)
		}
		w.end("CompoundPredicate")
	}
}

func (n *Node) xml(w *xw) {
	rc := ""
	if n.RC != 0 {
		rc = num(n.RC)
	}
	w.open("Node", "id?", n.ID, "score?", n.Score, "recordCount?", rc, "defaultChild?", n.DefaultChild)
	n.Pred.xml(w)
	for i, s := range n.Dist {
		w.leaf("ScoreDistribution", "value", s.Value, "recordCount", num(s.RC), "probability?", optnum(s.Prob), "confidence?", confidence(i))
	}
	for _, k := range n.Kids {
		k.xml(w)
	}
	w.end("Node")
}

func (m *Mdl) xml(w *xw) {
	name := map[string]string{"tree": "TreeModel", "reg": "RegressionModel", "mining": "MiningModel"}[m.Kind]
	at := []string{"modelName?", m.Name, "functionName?", m.Func}
	if m.Kind == "tree" {
		at = append(at, "missingValueStrategy?", m.MVS, "noTrueChildStrategy?", m.NTC, "missingValuePenalty?", optnum(m.Penalty))
	}
	if m.Kind == "reg" {
		at = append(at, "normalizationMethod?", m.Norm)
	}
	w.open(name, at...)
	w.open("MiningSchema")
	for _, f := range m.MFs {
		w.leaf("MiningField", append(append([]string{"name", f.Name, "usageType?", f.Usage}, optattr(f.Repl, "missingValueReplacement")...), f.more()...)...)
	}
	w.end("MiningSchema")
	if len(m.Out) > 0 {
		w.open("Output")
		for _, o := range m.Out {
			w.leaf("OutputField", "name", o.Name, "optype", "continuous", "dataType", "double", "feature?", o.Feature, "value?", o.Value)
		}
		w.end("Output")
	}
	if len(m.Tgts) > 0 {
		w.open("Targets")
		for _, t := range m.Tgts {
			w.leaf("Target", "field", t.Field, "rescaleFactor?", optnum(t.Factor), "rescaleConstant?", optnum(t.Offset), "castInteger?", t.Cast)
		}
		w.end("Targets")
	}
	if len(m.LT) > 0 {
		w.open("LocalTransformations")
		for _, df := range m.LT {
			df.xml(w)
		}
		w.end("LocalTransformations")
	}
	switch m.Kind {
	case "tree":
		m.Root.xml(w)
	case "reg":
		for _, t := range m.Tables {
			w.open("RegressionTable", "intercept", num(t.Intercept), "targetCategory?", t.Category)
			for _, p := range t.Nums {
				w.leaf("NumericPredictor", "name", p.Name, "coefficient", num(p.Coef), "exponent?", optint(p.Exp))
			}
			for _, p := range t.Cats {
				w.leaf("CategoricalPredictor", "name", p.Name, "value", p.Value, "coefficient", num(p.Coef))
			}
			w.end("RegressionTable")
		}
	case "mining":
		w.open("Segmentation", "multipleModelMethod?", m.Method)
		for _, s := range m.Segs {
			w.open("Segment", "id?", s.ID)
			s.Pred.xml(w)
			s.Model.xml(w)
			w.end("Segment")
		}
		w.end("Segmentation")
	}
	if m.Verif != nil {
		w.open("ModelVerification", "recordCount?", m.Verif.RowCount, "fieldCount?", m.Verif.FieldCount)
		w.open("VerificationFields")
		for _, f := range m.Verif.Fields {
			w.leaf("VerificationField", "field", f.Field, "column", "data:"+f.Column, "precision?", f.Precision, "zeroThreshold?", f.Zero)
		}
		w.end("VerificationFields")
		w.open("InlineTable")
		for _, r := range m.Verif.Rows {
			w.open("row")
			for _, c := range r {
				w.open("data:" + c[0])
				w.text(c[1])
				w.end("data:" + c[0])
			}
			w.end("row")
		}
		w.end("InlineTable")
		w.end("ModelVerification")
	}
	w.end(name)
}

// Short constructors.
func pTrue() *Pred  { return &Pred{Kind: "True"} }
func pFalse() *Pred { return &Pred{Kind: "False"} }
func pS(field, op, value string) *Pred {
	return &Pred{Kind: "simple", Field: field, Op: op, Value: value}
}
func pC(op string, subs ...*Pred) *Pred { return &Pred{Kind: "compound", Op: op, Subs: subs} }
func eF(name string) *Expr              { return &Expr{Kind: "field", Name: name} }
func eK(v string) *Expr                 { return &Expr{Kind: "const", Value: v, DataType: "double"} }
func eA(fn string, args ...*Expr) *Expr { return &Expr{Kind: "apply", Name: fn, Args: args} }
func dfC(name string, e *Expr) DF {
	return DF{Name: name, OpType: "continuous", DataType: "double", Expr: e}
}
func active(names ...string) []MF {
	var r []MF
	for _, n := range names {
		r = append(r, MF{Name: n})
	}
	return r
}
func dbl(names ...string) []Field {
	var r []Field
	for _, n := range names {
		r = append(r, Field{Name: n, Type: "double", OpType: "continuous"})
	}
	return r
}
