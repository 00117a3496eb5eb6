package main

// Hand-written documents that use every element and attribute of the supported subset.

const richHead = `<PMML xmlns="http://www.dmg.org/PMML-4_3" xmlns:data="http://jpmml.org/jpmml-model/InlineTable" version="4.3">` +
	`<Header copyright="(c) A &amp; B" description="d&lt;e" modelVersion="7"><Application name="app" version="1.2"/><Annotation>first note</Annotation><Annotation>second</Annotation></Header>` +
	`<DataDictionary numberOfFields="5">` +
	`<DataField name="x" displayName="the x" optype="continuous" dataType="double"><Interval closure="openClosed" leftMargin="-3.5" rightMargin="1e3"/><Interval closure="closedOpen" leftMargin="2000" rightMargin="3000"/></DataField>` +
	`<DataField name="s" optype="categorical" dataType="string" taxonomy="tax" isCyclic="1"><Value value="a" displayValue="A" property="valid"/><Value value="b" property="invalid"/><Value value="c" property="missing"/><Value value="a b"/></DataField>` +
	`<DataField name="n" optype="ordinal" dataType="integer" isCyclic="0"/>` +
	`<DataField name="b" optype="categorical" dataType="boolean"/>` +
	`<DataField name="y" optype="continuous" dataType="double"/>` +
	`<Taxonomy name="tax"/>` +
	`</DataDictionary>` +
	`<TransformationDictionary>` +
	`<DerivedField name="g" displayName="group" optype="categorical" dataType="string"><MapValues outputColumn="data:out" dataType="string" defaultValue="none" mapMissingTo="gone"><FieldColumnPair field="s" column="data:k1"/><FieldColumnPair field="n" column="data:k2"/>` +
	`<InlineTable><row><data:k1>a</data:k1><data:k2>1</data:k2><data:out>one</data:out></row><row><data:k1>b</data:k1><data:k2>2</data:k2><data:out>t&amp;w</data:out></row><row><data:k1>c</data:k1><data:k2/><data:out/></row></InlineTable></MapValues><Value value="one" displayValue="eins"/><Value value="none"/></DerivedField>` +
	`<DerivedField name="h" optype="continuous" dataType="double"><Apply function="if" mapMissingTo="0.5" defaultValue="0.25" invalidValueTreatment="asIs"><Apply function="isMissing"><FieldRef field="x"/></Apply><Constant dataType="double">-1.5e-1</Constant><Apply function="/"><Apply function="-"><FieldRef field="x" mapMissingTo="4"/><Constant dataType="double">3</Constant></Apply><FieldRef field="n"/></Apply></Apply></DerivedField>` +
	`</TransformationDictionary>`

const richSchema = `<MiningSchema><MiningField name="x" usageType="active" optype="continuous" outliers="asExtremeValues" lowValue="-10" highValue="10.5" importance="0.75" missingValueReplacement="2.5" missingValueTreatment="asMean" invalidValueTreatment="asIs"/>` +
	`<MiningField name="s" missingValueReplacement=""/><MiningField name="n" invalidValueTreatment="asMissing" outliers="asMissingValues"/><MiningField name="y" usageType="target"/></MiningSchema>`

const richOutput = `<Output><OutputField name="o1" displayName="first" optype="continuous" dataType="double" targetField="y" feature="probability" value="v1" ruleFeature="antecedent" algorithm="recommendation" rank="2" rankBasis="support" rankOrder="ascending" isMultiValued="1" segmentId="3"/><OutputField name="o2" optype="categorical" dataType="string" feature="probability" value="v2"/></Output>`

const richTargets = `<Targets><Target field="y" optype="continuous" castInteger="round" min="-100.5" max="100.25" rescaleConstant="0" rescaleFactor="3.5"><TargetValue/></Target><Target field="z" rescaleConstant="-2"/></Targets>`

const richLocal = `<LocalTransformations><DerivedField name="loc1" optype="continuous" dataType="double"><Apply function="sum"><FieldRef field="x"/><FieldRef field="h"/><Constant dataType="double">7</Constant></Apply></DerivedField><DerivedField name="loc2" optype="categorical" dataType="boolean"><Apply function="isNotMissing"><FieldRef field="s"/></Apply></DerivedField></LocalTransformations>`

const richVerification = `<ModelVerification recordCount="2" fieldCount="3"><VerificationFields><VerificationField field="x" column="data:vx"/><VerificationField field="s" column="data:vs" zeroThreshold="0"/><VerificationField field="score" column="data:vy" precision="1e-3" zeroThreshold="1e-9"/></VerificationFields><InlineTable><row><data:vx>1</data:vx><data:vs>a</data:vs><data:vy>2</data:vy></row><row><data:vx>3</data:vx><data:vs> b c </data:vs><data:vy>-4</data:vy></row></InlineTable></ModelVerification>`

const richTreeBody = `<Node id="1" score="1.5" recordCount="100" defaultChild="3"><True/><ScoreDistribution value="p" recordCount="60" probability="0.6" confidence="0.5"/><ScoreDistribution value="q &quot;r&quot;" recordCount="40.5" probability="0"/>` +
	`<Node id="2" score="2" recordCount="60"><SimplePredicate field="x" operator="lessThan" value="5"/></Node>` +
	`<Node id="3" score="3" recordCount="30" defaultChild="5"><CompoundPredicate booleanOperator="surrogate"><SimplePredicate field="s" operator="equal" value=" a "/><CompoundPredicate booleanOperator="and"><SimpleSetPredicate field="s" booleanOperator="isIn"><Array n="3" type="string">a "b c" "d\"e"</Array></SimpleSetPredicate><True/><False/><SimplePredicate field="n" operator="isMissing"/></CompoundPredicate><SimpleSetPredicate field="n" booleanOperator="isNotIn"><Array type="int">1 -2 30</Array></SimpleSetPredicate></CompoundPredicate>` +
	`<Node id="4" score="4"><SimplePredicate field="b" operator="notEqual" value="true"/><ScoreDistribution value="p" recordCount="1"/></Node>` +
	`<Node id="5" score="5"><SimplePredicate field="loc1" operator="greaterOrEqual" value="-1e2"/></Node></Node>` +
	`<Node id="6" score="6" recordCount="10"><False/></Node></Node>`

const richTreeAttrs = ` modelName="the tree" functionName="regression" algorithmName="CART" missingValueStrategy="defaultChild" missingValuePenalty="0.75" noTrueChildStrategy="returnLastPrediction" splitCharacteristic="binarySplit" isScorable="true"`

const richTree = `<TreeModel` + richTreeAttrs + `>` + richSchema + richOutput + richTargets + richLocal + richTreeBody + richVerification + `</TreeModel>`

const richReg = `<RegressionModel modelName="the regression" functionName="regression" algorithmName="least squares" normalizationMethod="exp" isScorable="true">` + richSchema +
	`<Output><OutputField name="score" optype="continuous" dataType="double" feature="predictedValue"/></Output>` + richTargets + richLocal +
	`<RegressionTable intercept="-0.5" targetCategory="c1"><NumericPredictor name="x" exponent="2" coefficient="0.25"/><NumericPredictor name="h" coefficient="-1e-2"/><CategoricalPredictor name="s" value="a" coefficient="0.125"/><CategoricalPredictor name="s" value="b" coefficient="-3"/></RegressionTable>` +
	richVerification + `</RegressionModel>`

const richMining = `<MiningModel modelName="the ensemble" functionName="regression" algorithmName="forest" isScorable="true">` + richSchema + richOutput + richTargets + richLocal +
	`<Segmentation multipleModelMethod="average"><Segment id="s1"><True/>` + richTree + `</Segment><Segment id="s2"><CompoundPredicate booleanOperator="or"><SimplePredicate field="x" operator="greaterThan" value="0"/><SimplePredicate field="loc1" operator="isNotMissing"/></CompoundPredicate>` + richReg + `</Segment>` +
	`<Segment id="s3"><False/><MiningModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Segmentation multipleModelMethod="selectFirst"><Segment id="s31"><SimplePredicate field="x" operator="equal" value="1"/><TreeModel functionName="regression"><MiningSchema/><Node score="9"><True/></Node></TreeModel></Segment><Segment><True/><TreeModel functionName="regression"><MiningSchema/><Node score="10"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></Segment></Segmentation>` +
	richVerification + `</MiningModel>`

func richDocs() map[string]string {
	return map[string]string{
		"tree":   richHead + richTree + `</PMML>`,
		"reg":    richHead + richReg + `</PMML>`,
		"mining": richHead + richMining + `</PMML>`,
		"all":    richHead + richReg + richMining + richTree + `<Scorecard functionName="regression"/>` + richReg + `</PMML>`,
	}
}

var richNames = []string{"tree", "reg", "mining", "all"}

var richRows = []Row{
	{"x": 1.0, "s": "a", "n": int64(1), "b": true}, {"x": 7.0, "s": " a ", "n": int64(2), "b": false}, {"x": -4.0, "s": "b c", "n": int64(30)}, {"s": "d\"e", "b": true, "n": int64(-2)}, {"x": 100.0, "n": int64(2), "s": "b"}, {},
}
