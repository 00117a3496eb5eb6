//go:build held

package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/models"
)

// ---- the decoded side

func held(name string, vals ...interface{}) *xnode {
	n := &xnode{name: name}
	for i, a := range specs[name].attrs {
		v, present := "", true
		switch x := vals[i].(type) {
		case *string:
			if present = x != nil; present {
				v = *x
			}
		case *float64:
			if present = x != nil; present {
				v = strconv.FormatFloat(*x, 'g', -1, 64)
			}
		case *models.ProbNumber:
			if present = x != nil; present {
				v = strconv.FormatFloat(float64(*x), 'g', -1, 64)
			}
		case *int:
			if present = x != nil; present {
				v = strconv.Itoa(*x)
			}
		case float64:
			v = strconv.FormatFloat(x, 'g', -1, 64)
		default:
			v = fmt.Sprint(x)
		}
		if v, keep := a.canon(v, present); keep {
			n.attrs = append(n.attrs, [2]string{a.name, v})
		}
	}
	if len(vals) != len(specs[name].attrs) {
		panic("held " + name)
	}
	return n
}

func (n *xnode) exts(l []models.Extension) *xnode {
	for _, e := range l {
		n.add(held("Extension", e.Extender, e.Name, e.Value))
	}
	return n
}

func heldPMML(p *models.PMML) *xnode {
	n := held("PMML", p.Version)
	h := held("Header", p.Header.Copyright, p.Header.Description, p.Header.ModelVersion)
	for _, a := range p.Header.Annotations {
		x := held("Annotation").exts(a.Extensions)
		x.text = a.Data
		h.add(x)
	}
	if a := p.Header.Application; a != nil {
		h.add(held("Application", a.Name, a.Version).exts(a.Extensions))
	}
	n.add(h.exts(p.Header.Extensions))
	dd := held("DataDictionary", p.DataDictionary.NumberOfFields)
	for _, f := range p.DataDictionary.DataFields {
		x := held("DataField", f.Name, f.DisplayName, f.OpType, f.DataType, f.Taxonomy, f.IsCyclic)
		for _, i := range f.Intervals {
			x.add(held("Interval", i.Closure, float64(i.LeftMargin), float64(i.RightMargin)).exts(i.Extensions))
		}
		for _, v := range f.Values {
			x.add(heldValue(v))
		}
		dd.add(x.exts(f.Extensions))
	}
	for _, t := range p.DataDictionary.Taxonomies {
		dd.add(held("Taxonomy", t.Name).exts(t.Extensions))
	}
	n.add(dd.exts(p.DataDictionary.Extensions))
	td := held("TransformationDictionary")
	for _, f := range p.TransformationDictionary.DerivedFields {
		td.add(heldDerived(f))
	}
	n.add(td.exts(p.TransformationDictionary.Extensions))
	for _, m := range p.Models {
		n.add(heldModel(m))
	}
	return n.exts(p.Extensions)
}

func heldValue(v models.Value) *xnode {
	return held("Value", v.Value, v.DisplayValue, v.Valid).exts(v.Extensions)
}

func heldDerived(f models.DerivedField) *xnode {
	x := held("DerivedField", f.Name, f.DisplayName, f.OpType, f.DataType)
	for _, v := range f.Values {
		x.add(heldValue(v))
	}
	if f.Expression != nil {
		x.add(heldExpr(f.Expression))
	}
	return x.exts(f.Extensions)
}

func heldExpr(e models.Expression) *xnode {
	switch x := e.(type) {
	case *models.FieldRef:
		return held("FieldRef", x.Field, x.MapMissingTo).exts(x.Extensions)
	case *models.Constant:
		n := held("Constant", x.DataType)
		n.text = x.Value
		return n
	case *models.Apply:
		n := held("Apply", x.Function, x.MapMissingTo, x.DefaultValue, x.InvalidValueTreatment)
		for _, a := range x.Expressions {
			n.add(heldExpr(a))
		}
		return n.exts(x.Extensions)
	case *models.MapValues:
		n := held("MapValues", x.OutputColumn, x.DataType, x.MapMissingTo, x.DefaultValue)
		for _, p := range x.FieldColumnPairs {
			n.add(held("FieldColumnPair", p.Field, p.Column).exts(p.Extensions))
		}
		for _, t := range x.InlineTables {
			n.add(heldTable(t))
		}
		return n.exts(x.Extensions)
	case *models.Aggregate:
		return held("Aggregate", x.Field, x.Function, x.GroupField, x.SQLWhere).exts(x.Extensions)
	case *models.Discretize:
		return held("Discretize").exts(x.Extensions)
	case *models.Lag:
		return held("Lag").exts(x.Extensions)
	case *models.NormContinuous:
		return held("NormContinuous").exts(x.Extensions)
	case *models.NormDiscrete:
		return held("NormDiscrete").exts(x.Extensions)
	case *models.TextIndex:
		return held("TextIndex").exts(x.Extensions)
	}
	return &xnode{name: fmt.Sprintf("?%T", e)}
}

func heldTable(t models.InlineTable) *xnode {
	n := held("InlineTable")
	for _, r := range t.Rows {
		cells := map[string]string{}
		for k, v := range r {
			cells[k] = fmt.Sprint(v)
		}
		n.kids = append(n.kids, &xnode{name: "row", attrs: sortedCells(cells)})
	}
	return n.exts(t.Extensions)
}

func heldPred(p models.Predicate) *xnode {
	switch x := p.(type) {
	case *models.SimplePredicate:
		return held("SimplePredicate", x.Field, x.Operator, x.Value).exts(x.Extensions)
	case *models.SimpleSetPredicate:
		n := held("SimpleSetPredicate", x.Field, x.BooleanOperator)
		arr := models.ArrayType(x.Array)
		a := held("Array", arr.Type, arr.N)
		toks, err := arr.Tokens()
		if err != nil {
			a.text = "!" + err.Error()
		} else {
			a.text = strings.Join(toks, "\x00")
		}
		n.add(a)
		return n.exts(x.Extensions)
	case *models.CompoundPredicate:
		n := held("CompoundPredicate", x.BooleanOperator)
		for _, s := range x.Predicates {
			n.add(heldPred(s))
		}
		return n.exts(x.Extensions)
	case *models.True:
		return held("True").exts(x.Extensions)
	case *models.False:
		return held("False").exts(x.Extensions)
	}
	return &xnode{name: fmt.Sprintf("?%T", p)}
}

func heldNode(x models.Node) *xnode {
	n := held("Node", x.ID, x.Score, float64(x.RecordCount), x.DefaultChild)
	if x.Predicate != nil {
		n.add(heldPred(x.Predicate))
	}
	for _, s := range x.ScoreDistributions {
		n.add(held("ScoreDistribution", s.Value, float64(s.RecordCount), s.Probability, s.Confidence).exts(s.Extensions))
	}
	for _, k := range x.Nodes {
		n.add(heldNode(k))
	}
	return n.exts(x.Extensions)
}

func heldCommon(n *xnode, ms models.MiningSchema, out *models.Output, tg *models.Targets, lt models.LocalTransformations) {
	s := held("MiningSchema")
	for _, f := range ms.MiningFields {
		s.add(held("MiningField", f.Name, f.UsageType, f.OpType, f.Outliers, float64(f.LowValue), float64(f.HighValue), float64(f.Importance), f.MissingValueReplacement, f.MissingValueTreatment, f.InvalidValueTreatment).exts(f.Extensions))
	}
	n.add(s.exts(ms.Extensions))
	if out != nil {
		o := held("Output")
		for _, f := range out.Fields {
			o.add(held("OutputField", f.Name, f.DisplayName, f.OpType, f.DataType, f.TargetField, f.Feature, f.Value, f.RuleFeature, f.Algorithm, f.Rank, f.RankBasis, f.RankOrder, f.IsMultiValued, f.SegmentID).exts(f.Extensions))
		}
		n.add(o.exts(out.Extensions))
	}
	if tg != nil {
		t := held("Targets")
		for _, f := range tg.Targets {
			x := held("Target", f.Field, f.OpType, f.CastInteger, f.Min, f.Max, f.RescaleConstant, f.RescaleFactor)
			for _, v := range f.TargetValues {
				x.add(held("TargetValue").exts(v.Extensions))
			}
			t.add(x.exts(f.Extensions))
		}
		n.add(t.exts(tg.Extensions))
	}
	l := held("LocalTransformations")
	for _, f := range lt.DerivedFields {
		l.add(heldDerived(f))
	}
	n.add(l.exts(lt.Extensions))
}

func heldVerification(n *xnode, v *models.ModelVerification) {
	if v == nil {
		return
	}
	x := held("ModelVerification", v.RecordCount, v.FieldCount)
	fs := held("VerificationFields")
	for _, f := range v.VerificationFields.Fields {
		fs.add(held("VerificationField", f.Field, f.Column, f.Precision, f.ZeroThreshold).exts(f.Extensions))
	}
	x.add(fs.exts(v.VerificationFields.Extensions))
	x.add(heldTable(v.InlineTable))
	n.add(x.exts(v.Extensions))
}

func heldModel(m models.ModelElement) *xnode {
	switch x := m.(type) {
	case *models.TreeModel:
		n := held("TreeModel", x.ModelName, x.FunctionName, x.AlgorithmName, x.MissingValueStrategy, float64(x.MissingValuePenalty), x.NoTrueChildStrategy, x.SplitCharacteristic, x.IsScorable)
		heldCommon(n, x.MiningSchema, x.Output, x.Targets, x.LocalTransformations)
		n.add(heldNode(x.Node))
		heldVerification(n, x.ModelVerification)
		return n.exts(x.Extensions)
	case *models.RegressionModel:
		n := held("RegressionModel", x.ModelName, x.FunctionName, x.AlgorithmName, x.RegressionNormalizationMethod, x.IsScorable)
		heldCommon(n, x.MiningSchema, &x.Output, x.Targets, x.LocalTransformations)
		for _, t := range x.RegressionTables {
			k := held("RegressionTable", t.Intercept, t.TargetCategory)
			for _, p := range t.NumericPredictor {
				k.add(held("NumericPredictor", p.Name, p.Exponent, p.Coefficient).exts(p.Extensions))
			}
			for _, p := range t.CategoricalPredictors {
				k.add(held("CategoricalPredictor", p.Name, p.Value, float64(p.Coefficient)).exts(p.Extensions))
			}
			for _, p := range t.PredictorTerms {
				k.add(held("PredictorTerm").exts(p.Extensions))
			}
			n.add(k.exts(t.Extensions))
		}
		heldVerification(n, x.ModelVerification)
		return n.exts(x.Extensions)
	case *models.MiningModel:
		n := held("MiningModel", derefS(x.ModelName), x.FunctionName, derefS(x.AlgorithmName), x.IsScorable)
		heldCommon(n, x.MiningSchema, &x.Output, &x.Targets, x.LocalTransformations)
		s := held("Segmentation", x.Segmentation.MultipleModelMethod)
		for _, sg := range x.Segmentation.Segments {
			k := held("Segment", sg.Id)
			for _, p := range sg.Predicates {
				k.add(heldPred(p))
			}
			for _, mm := range sg.Models {
				k.add(heldModel(mm))
			}
			s.add(k.exts(sg.Extensions))
		}
		n.add(s.exts(x.Segmentation.Extensions))
		heldVerification(n, x.ModelVerification)
		return n.exts(x.Extensions)
	case *models.Scorecard:
		return held("Scorecard")
	case *models.NeuralNetwork:
		return held("NeuralNetwork")
	}
	return &xnode{name: fmt.Sprintf("?%T", m)}
}

func derefS(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}
