package main

import "fmt"

// descriptions rewrite a document without touching what decides: attributes that describe, elements that inform, and
// defaults spelled out.
var descriptions = []struct {
	name string
	at   func(e *xnode, k int)
}{
	{"described", describe},
	{"informed", inform},
	{"defaults spelled out", spellOut},
}

// described applies a description to every element of a document.
func described(x string, at func(e *xnode, k int)) string {
	root := parseX(x)
	for k, e := range root.elems() {
		at(e, k)
	}
	return root.String()
}

func (e *xnode) addAttr(name, v string) {
	if _, ok := e.attr(name); !ok {
		e.attrs = append(e.attrs, [2]string{name, v})
	}
}

func elemX(name string, attrs ...string) *xnode {
	e := &xnode{name: name}
	for i := 0; i+1 < len(attrs); i += 2 {
		e.attrs = append(e.attrs, [2]string{attrs[i], attrs[i+1]})
	}
	return e
}

func (e *xnode) holding(k ...*xnode) *xnode { e.kids = append(e.kids, k...); return e }

func isModelX(e *xnode) bool {
	return e.name == "TreeModel" || e.name == "RegressionModel" || e.name == "MiningModel"
}

var labels = []string{"The <first> one", "0", "-12.5e3", "true", "missing", "é ß", "a", "1"}

func describe(e *xnode, k int) {
	label := labels[k%len(labels)]
	switch e.name {
	case "Header":
		e.addAttr("copyright", "(c) 1999 Nobody & Co")
		e.addAttr("description", label)
		e.addAttr("modelVersion", "7.1")
	case "DataDictionary":
		n := 0
		for _, s := range e.kids {
			if s.name == "DataField" {
				n++
			}
		}
		e.addAttr("numberOfFields", fmt.Sprint(n))
	case "DataField", "DerivedField", "OutputField":
		e.addAttr("displayName", label)
	case "Value":
		e.addAttr("displayValue", label)
	case "MiningField":
		e.addAttr("importance", []string{"0", "0.25", "1", "-3"}[k%4])
	case "TreeModel":
		e.addAttr("splitCharacteristic", []string{"multiSplit", "binarySplit"}[k%2])
	case "RegressionModel":
		e.addAttr("modelType", []string{"linearRegression", "logisticRegression", "stepwisePolynomialRegression"}[k%3])
		e.addAttr("targetFieldName", label)
	case "Segment":
		// Weights mean something to weighted methods only.
		e.addAttr("weight", []string{"0", "0.5", "2", "100"}[k%4])
	case "Target":
		e.addAttr("optype", "continuous")
	case "ScoreDistribution":
		// Nothing that is predicted here is a confidence.
		e.addAttr("confidence", []string{"0", "0.9", "1", "0.125", "0.01"}[k%5])
	}
	if isModelX(e) {
		e.addAttr("algorithmName", []string{"rpart", "logistic", "random forest", "linear", "softmax"}[k%5])
	}
}

func counted(k int) *xnode {
	return elemX("UnivariateStats", "field", []string{"x", "y", "s", "nowhere"}[k%4]).holding(
		elemX("Counts", "totalFreq", "240", "missingFreq", "12", "invalidFreq", "1"),
		elemX("NumericInfo", "minimum", "-3.5", "maximum", "1E3", "mean", "0.25", "standardDeviation", "2", "median", "0", "interQuartileRange", "1"),
		elemX("DiscrStats", "modalValue", "a").holding(elemX("Array", "n", "2", "type", "string").holding(&xnode{text: `a "b c"`}), elemX("Array", "n", "2", "type", "int").holding(&xnode{text: "3 4"})))
}

func inform(e *xnode, k int) {
	first := func(names ...string) int { // where the first of these stands
		for i, s := range e.kids {
			for _, n := range names {
				if s.name == n {
					return i
				}
			}
		}
		return len(e.kids)
	}
	switch {
	case e.name == "PMML":
		e.insert(first("DataDictionary"), elemX("MiningBuildTask").holding(elemX("Extension", "name", "built", "value", "by hand")))
	case e.name == "Header":
		e.holding(elemX("Application", "name", "score", "version", "1.0"), elemX("Annotation").holding(&xnode{text: "True & False, x > 1"}), elemX("Timestamp").holding(&xnode{text: "1999-12-31 23:59:59"}))
	case isModelX(e):
		at := first("Targets", "LocalTransformations", "Node", "RegressionTable", "Segmentation")
		e.insert(at, elemX("ModelStats").holding(counted(k), counted(k+1)))
		e.insert(at+1, elemX("ModelExplanation").holding(
			elemX("PredictiveModelQuality", "targetField", "y", "dataUsage", "training", "meanError", "0.5"),
			elemX("Correlations").holding(
				elemX("CorrelationFields").holding(elemX("Array", "n", "2", "type", "string").holding(&xnode{text: "x y"})),
				elemX("CorrelationValues").holding(elemX("Matrix", "kind", "any").holding(
					elemX("Array", "n", "2", "type", "real").holding(&xnode{text: "1 0.5"}), elemX("Array", "n", "2", "type", "real").holding(&xnode{text: "0.5 1"}))))))
	case e.name == "Node":
		e.insert(first("ScoreDistribution", "Node"), elemX("Partition", "name", fmt.Sprint("partition ", k), "size", "12").holding(
			elemX("PartitionFieldStats", "field", "x").holding(elemX("Counts", "totalFreq", "3"), elemX("NumericInfo", "mean", "7"))))
	}
}

func spellOut(e *xnode, k int) {
	switch e.name {
	case "Value":
		e.addAttr("property", "valid")
	case "DataField":
		e.addAttr("isCyclic", "0")
	case "MiningField":
		e.addAttr("usageType", "active")
		e.addAttr("outliers", "asIs")
		e.addAttr("invalidValueTreatment", "returnInvalid")
	case "TreeModel":
		e.addAttr("missingValueStrategy", "none")
		e.addAttr("missingValuePenalty", "1.0")
		e.addAttr("splitCharacteristic", "multiSplit")
	case "RegressionModel":
		e.addAttr("normalizationMethod", "none")
	case "NumericPredictor":
		e.addAttr("exponent", "1")
	case "OutputField":
		e.addAttr("rank", "1")
		e.addAttr("rankBasis", "confidence")
		e.addAttr("rankOrder", "descending")
		e.addAttr("isMultiValued", "0")
		e.addAttr("ruleFeature", "consequent")
		e.addAttr("algorithm", "exclusiveRecommendation")
	case "Target":
		e.addAttr("rescaleFactor", "1")
	case "Segment":
		e.addAttr("weight", "1")
	case "Apply":
		e.addAttr("invalidValueTreatment", "returnInvalid")
	}
	if isModelX(e) {
		e.addAttr("isScorable", "true")
	}
}
