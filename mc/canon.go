package main

// Canonical trees of documents: what a decoded document holds, and what its text says, in the same
// form. The table lists the elements, attributes and children that scoring uses or the header and
// dictionaries carry, with their PMML defaults.

import (
	"fmt"
	"strconv"
	"strings"
)

type attrSpec struct {
	name string
	kind byte // s string, n number, i integer, b boolean; upper case: absent and zero differ
	def  string
}

type elemSpec struct {
	attrs  []attrSpec
	groups [][]string
	text   bool
}

func at(s string) []attrSpec {
	var r []attrSpec
	for _, f := range strings.Fields(s) {
		p := strings.Split(f, ":")
		a := attrSpec{name: p[0], kind: 's'}
		if len(p) > 1 && p[1] != "" {
			a.kind = p[1][0]
		}
		if len(p) > 2 {
			a.def = p[2]
		}
		r = append(r, a)
	}
	return r
}

var (
	gPred  = []string{"SimplePredicate", "SimpleSetPredicate", "CompoundPredicate", "True", "False"}
	gExpr  = []string{"FieldRef", "Constant", "Apply", "MapValues", "Aggregate", "Discretize", "Lag", "NormContinuous", "NormDiscrete", "TextIndex"}
	gModel = []string{"TreeModel", "RegressionModel", "MiningModel", "Scorecard", "NeuralNetwork"}
)

func g(names ...string) [][]string {
	var r [][]string
	for _, n := range names {
		switch n {
		case "#pred":
			r = append(r, gPred)
		case "#expr":
			r = append(r, gExpr)
		case "#model":
			r = append(r, gModel)
		default:
			r = append(r, []string{n})
		}
	}
	return r
}

var specs = map[string]elemSpec{
	"PMML":                     {at("version"), g("Header", "DataDictionary", "TransformationDictionary", "#model", "Extension"), false},
	"Header":                   {at("copyright description modelVersion"), g("Annotation", "Application", "Extension"), false},
	"Annotation":               {nil, g("Extension"), true},
	"Application":              {at("name version"), g("Extension"), false},
	"Extension":                {at("extender:S name:S value:S"), nil, false},
	"DataDictionary":           {at("numberOfFields:i"), g("DataField", "Taxonomy", "Extension"), false},
	"Taxonomy":                 {at("name"), g("Extension"), false},
	"DataField":                {at("name displayName optype dataType taxonomy isCyclic:b"), g("Interval", "Value", "Extension"), false},
	"Value":                    {at("value displayValue property::valid"), g("Extension"), false},
	"Interval":                 {at("closure leftMargin:n rightMargin:n"), g("Extension"), false},
	"TransformationDictionary": {nil, g("DerivedField", "Extension"), false},
	"LocalTransformations":     {nil, g("DerivedField", "Extension"), false},
	"DerivedField":             {at("name displayName optype dataType"), g("Value", "#expr", "Extension"), false},
	"FieldRef":                 {at("field mapMissingTo:S"), g("Extension"), false},
	"Constant":                 {at("dataType"), nil, true},
	"Apply":                    {at("function mapMissingTo:S defaultValue:S invalidValueTreatment::returnInvalid"), g("#expr", "Extension"), false},
	"MapValues":                {at("outputColumn dataType mapMissingTo:S defaultValue:S"), g("FieldColumnPair", "InlineTable", "Extension"), false},
	"FieldColumnPair":          {at("field column"), g("Extension"), false},
	"InlineTable":              {nil, g("row", "Extension"), false},
	"Aggregate":                {at("field function groupField sqlWhere"), g("Extension"), false},
	"Discretize":               {nil, g("Extension"), false},
	"Lag":                      {nil, g("Extension"), false},
	"NormContinuous":           {nil, g("Extension"), false},
	"NormDiscrete":             {nil, g("Extension"), false},
	"TextIndex":                {nil, g("Extension"), false},
	"MiningSchema":             {nil, g("MiningField", "Extension"), false},
	"MiningField":              {at("name usageType::active optype outliers::asIs lowValue:n highValue:n importance:n missingValueReplacement:S missingValueTreatment invalidValueTreatment::returnInvalid"), g("Extension"), false},
	"Output":                   {nil, g("OutputField", "Extension"), false},
	"OutputField":              {at("name displayName optype dataType targetField feature::predictedValue value ruleFeature::consequent algorithm::exclusiveRecommendation rank:i rankBasis::confidence rankOrder::descending isMultiValued:i segmentId"), g("Extension"), false},
	"Targets":                  {nil, g("Target", "Extension"), false},
	"Target":                   {at("field optype castInteger min:n max:n rescaleConstant:N rescaleFactor:N"), g("TargetValue", "Extension"), false},
	"TargetValue":              {nil, g("Extension"), false},
	"TreeModel":                {at("modelName functionName algorithmName missingValueStrategy::none missingValuePenalty:P:1 noTrueChildStrategy splitCharacteristic::multiSplit isScorable:B:true"), g("MiningSchema", "Output", "Targets", "LocalTransformations", "Node", "ModelVerification", "Extension"), false},
	"Node":                     {at("id score recordCount:n defaultChild"), g("#pred", "ScoreDistribution", "Node", "Extension"), false},
	"ScoreDistribution":        {at("value recordCount:n probability:N confidence:N"), g("Extension"), false},
	"SimplePredicate":          {at("field operator value"), g("Extension"), false},
	"SimpleSetPredicate":       {at("field booleanOperator"), g("Array", "Extension"), false},
	"Array":                    {at("type n:I"), nil, false},
	"CompoundPredicate":        {at("booleanOperator"), g("#pred", "Extension"), false},
	"True":                     {nil, g("Extension"), false},
	"False":                    {nil, g("Extension"), false},
	"RegressionModel":          {at("modelName functionName algorithmName normalizationMethod::none isScorable:B:true"), g("MiningSchema", "Output", "Targets", "LocalTransformations", "RegressionTable", "ModelVerification", "Extension"), false},
	"RegressionTable":          {at("intercept:n targetCategory"), g("NumericPredictor", "CategoricalPredictor", "PredictorTerm", "Extension"), false},
	"NumericPredictor":         {at("name exponent:E:1 coefficient:n"), g("Extension"), false},
	"CategoricalPredictor":     {at("name value coefficient:n"), g("Extension"), false},
	"PredictorTerm":            {nil, g("Extension"), false},
	"MiningModel":              {at("modelName functionName algorithmName isScorable:B:true"), g("MiningSchema", "Output", "Targets", "LocalTransformations", "Segmentation", "ModelVerification", "Extension"), false},
	"Segmentation":             {at("multipleModelMethod"), g("Segment", "Extension"), false},
	"Segment":                  {at("id"), g("#pred", "#model", "Extension"), false},
	"ModelVerification":        {at("recordCount:i fieldCount:i"), g("VerificationFields", "InlineTable", "Extension"), false},
	"VerificationFields":       {nil, g("VerificationField", "Extension"), false},
	"VerificationField":        {at("field column precision:N zeroThreshold:N"), g("Extension"), false},
	"Scorecard":                {nil, nil, false},
	"NeuralNetwork":            {nil, nil, false},
}

// optional containers the library keeps by value: empty and absent are the same to it
var emptyIsAbsent = map[string]bool{"LocalTransformations": true, "Output": true, "Targets": true, "TransformationDictionary": true, "Header": true, "MiningSchema": true, "DataDictionary": true, "VerificationFields": true, "InlineTable": true, "Segmentation": true}

func canonNum(s string) string {
	f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	if err != nil {
		return "!" + s
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func (a attrSpec) canon(v string, present bool) (string, bool) {
	switch a.kind {
	case 'S':
		return v, present
	case 'N', 'I':
		return canonNum(v), present
	case 'P', 'E', 'B': // always held, default filled in
		if !present {
			v = a.def
		}
		if a.kind == 'B' {
			return fmt.Sprint(v == "true" || v == "1"), true
		}
		return canonNum(v), true
	case 'n', 'i':
		if v == "" {
			return "", false
		}
		v = canonNum(v)
		return v, v != "0" && v != "-0"
	case 'b':
		return "true", v == "1" || v == "true"
	}
	return v, v != "" && v != a.def
}

// expectTree is the canonical form of an element as written.
func expectTree(e *xnode) *xnode {
	n := &xnode{name: elementName(e.name)}
	if n.name == "row" {
		cells := map[string]string{}
		for _, k := range e.kids {
			if k.isElem() {
				cells[elementName(k.name)] = k.allText()
			}
		}
		n.attrs = sortedCells(cells)
		return n
	}
	s, ok := specs[n.name]
	if !ok {
		panic("no specification of element " + n.name)
	}
	for _, a := range s.attrs {
		v, present := e.attr(a.name)
		if v, keep := a.canon(v, present); keep {
			n.attrs = append(n.attrs, [2]string{a.name, v})
		}
	}
	if s.text {
		n.text = e.allText()
	}
	if n.name == "Array" {
		n.text = strings.Join(refTokens(e.allText()), "\x00")
	}
	for _, grp := range s.groups {
		for _, k := range e.kids {
			if k.isElem() && contains(grp, elementName(k.name)) {
				n.add(expectTree(k))
			}
		}
	}
	return n
}

func (n *xnode) add(k *xnode) {
	if emptyIsAbsent[k.name] && len(k.attrs) == 0 && len(k.kids) == 0 {
		return
	}
	n.kids = append(n.kids, k)
}

func (e *xnode) allText() string {
	s := ""
	for _, k := range e.kids {
		if k.name == "" {
			s += k.text
		}
	}
	return s
}

func sortedCells(m map[string]string) [][2]string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	var r [][2]string
	for _, k := range ks {
		r = append(r, [2]string{k, m[k]})
	}
	return r
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// canonical text, for comparison and messages
func (n *xnode) canonText(indent string, w *strings.Builder) {
	w.WriteString(indent + n.name)
	for _, a := range n.attrs {
		fmt.Fprintf(w, " %s=%q", a[0], a[1])
	}
	if n.text != "" {
		fmt.Fprintf(w, " text=%q", n.text)
	}
	w.WriteString("\n")
	for _, k := range n.kids {
		k.canonText(indent+" ", w)
	}
}

func canonStr(n *xnode) string {
	var w strings.Builder
	n.canonText("", &w)
	return w.String()
}

// refTokens splits an array's text as PMML defines it (the harness's own reading).
func refTokens(s string) []string {
	toks, err := refArray(s)
	if err != nil {
		return []string{"!" + err.Error()}
	}
	return toks
}
