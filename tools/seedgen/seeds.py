# Planted bugs: see gen.py. The Go code of a demonstration uses lib.go.txt.
TREE, MIN, REG, INP, EVA, VAL = ['evaluation/%s.go' % x for x in ('tree', 'mining', 'regression', 'input', 'evaluation', 'miningschema')]
EL = 'models/elements.go'
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

seed('c01-large-integers', 'C01',
  [(TREE, "if val.Int64() <= p.RawPredicateValue.(int64) {", "if val.Float64() <= float64(p.RawPredicateValue.(int64)) {")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "integer") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="lessOrEqual" value="9007199254740992"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": int64(9007199254740992)}), "y", "b")
	want(score(m, row{"x": int64(9007199254740993)}), "y", "a")''',
  'a lessOrEqual predicate on an integer field whose value lies beyond 2^53', 'integer comparison is done in floating point, so neighbouring large integers compare as equal')

seed('c02-xor-of-three', 'C02',
  [(TREE, "if trueCount%2 == 1 {", "if trueCount == 1 {")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="xor"><True/><True/><SimplePredicate field="x" operator="greaterThan" value="0"/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", "b")
	want(score(m, row{"x": -1.0}), "y", "a")''',
  'an xor of three true members', 'xor means exactly one instead of an odd number')

seed('c02-and-false-after-unknown', 'C02',
  [(TREE, "if unknownCount > 0 && unknownCount+trueCount == len(p.Predicates) {", "if unknownCount > 0 && (unknownCount+trueCount == len(p.Predicates) || trueCount > 1) {")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="nullPrediction">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="and"><True/><True/><SimplePredicate field="x" operator="greaterThan" value="0"/><False/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", "a")''',
  'an and of at least four members of which two are true, one is unknown and one is false', 'and becomes unknown although a member is false')

seed('c03-null-prediction-backtracks', 'C03',
  [(TREE, '''		score, childResult := c.evaluateMissingValueStrategyNone(input)

		if childResult == t {''', '''		score, childResult := c.evaluateMissingValueStrategyNone(input)

		if childResult == t && len(score) > 0 {''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" noTrueChildStrategy="returnNullPrediction">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/><Node score="c"><SimplePredicate field="x" operator="greaterThan" value="10"/></Node></Node><Node score="d"><True/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 5.0}), "y", nil)
	want(score(m, row{"x": 11.0}), "y", "c")
	want(score(m, row{"x": -1.0}), "y", "d")''',
  'returnNullPrediction, a true child none of whose children is true, and a later true sibling', 'the tree backtracks into a later sibling instead of giving no prediction')

seed('c04-penalty-once', 'C04',
  [(TREE, '''		for idx, score := range defaultScores {
			score.confidence = score.confidence * float64(n.m.model.MissingValuePenalty)
			score.probability = score.probability * float64(n.m.model.MissingValuePenalty)
''', '''		penalty := float64(n.m.model.MissingValuePenalty)
		if len(n.children) == 1 {
			penalty = 1.0
		}

		for idx, score := range defaultScores {
			score.confidence = score.confidence * penalty
			score.probability = score.probability * penalty
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild" missingValuePenalty="0.5">` + schema("y", "x") +
		`<Node score="a" id="0" defaultChild="1"><True/><Node id="1" score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/><ScoreDistribution value="b" recordCount="1"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(b)", 0.5)
	want(score(m, row{"x": 1.0}), "probability(b)", 1.0)''',
  'a default child without siblings and a penalty', 'the missing value penalty is not applied for only children')

seed('c04-weights-count-false-siblings', 'C04',
  [(TREE, '''		if childResult != f {
			childScores[i] = scores
			totalRecordCount += c.score.recordCount
		}
''', '''		totalRecordCount += c.score.recordCount
		if childResult != f {
			childScores[i] = scores
		}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double", "z", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="weightedConfidence">` + schema("y", "x", "z") +
		`<Node score="a" recordCount="10"><True/><Node score="a" recordCount="4"><SimplePredicate field="z" operator="greaterThan" value="0"/><ScoreDistribution value="a" recordCount="4"/></Node>` +
		`<Node score="b" recordCount="6"><SimplePredicate field="x" operator="greaterThan" value="0"/><ScoreDistribution value="b" recordCount="6"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"z": -1.0}), "probability(b)", 1.0)''',
  'weightedConfidence with a false sibling before an unknown one', 'record counts of false siblings enter the weights')

seed('c05-declared-zero', 'C05',
  [(TREE, "if sc.Probability != nil {", "if sc.Probability != nil && *sc.Probability > 0 {")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><ScoreDistribution value="a" recordCount="1" probability="1"/><ScoreDistribution value="b" recordCount="3" probability="0"/></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "probability(b)", 0.0)
	want(score(m, row{"x": 1.0}), "y", "a")''',
  'a class with a declared probability of 0 and a positive record count', 'a declared probability of zero is replaced by the share of record counts')

seed('c06-softmax-clamps', 'C06',
  [(REG, '''			s := 0.0
			for _, yVal := range y {
				s += yVal
			}
''', '''			s := 0.0
			for _, yVal := range y {
				s += math.Abs(yVal)
			}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="simplemax">` + schema("y", "x") +
		`<Output><OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/></Output>` +
		`<RegressionTable intercept="3" targetCategory="a"/><RegressionTable intercept="0" targetCategory="b"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	out := score(m, row{"x": -1.0})
	want(out, "pa", 1.5)
	want(out, "pb", -0.5)''',
  'simplemax with a negative score', 'simplemax divides by the sum of absolute values')

seed('c07-cast-ties', 'C07',
  [(MIN, '''		if target.RescaleFactor != nil {
			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
		}
		if target.RescaleConstant != nil {
			scoreMap[target.Field] = scoreMap[target.Field] + *target.RescaleConstant
		}
''', '''		if target.RescaleConstant != nil && target.RescaleFactor == nil {
			scoreMap[target.Field] = scoreMap[target.Field] + *target.RescaleConstant
		}
		if target.RescaleFactor != nil {
			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
			if target.RescaleConstant != nil && scoreMap[target.Field] != 0 {
				scoreMap[target.Field] = scoreMap[target.Field] + *target.RescaleConstant
			}
		}
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") +
		`<Targets><Target field="y" rescaleFactor="2" rescaleConstant="5"/></Targets>` +
		`<Segmentation multipleModelMethod="sum"><Segment><True/><RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", 7.0)
	want(score(m, row{"x": 0.0}), "y", 5.0)''',
  'a rescaled target whose combined score is exactly zero', 'the rescale constant is not added to a score of zero')

seed('c07-chain-predicates-late-outputs', 'C07',
  [(MIN, '''		for k, v := range lastOut {
			input[k] = v
		}

		if m.segtests[i](input) != t {
			continue
		}

		segOut, err := segModel.Evaluate(input)
''', '''		if m.segtests[i](input) != t {
			continue
		}

		for k, v := range lastOut {
			input[k] = v
		}

		segOut, err := segModel.Evaluate(input)
''')],
  '''
	seg := func(pred, out, coef string) string {
		return `<Segment>` + pred + `<RegressionModel functionName="regression">` + schema("", "x") +
			`<Output><OutputField name="` + out + `"/></Output><RegressionTable intercept="` + coef + `"/></RegressionModel></Segment>`
	}
	m := build(head("a", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("", "x") +
		`<Segmentation multipleModelMethod="modelChain">` + seg(`<True/>`, "a", "3") + seg(`<SimplePredicate field="a" operator="greaterThan" value="2"/>`, "b", "7") + `</Segmentation></MiningModel></PMML>`)
	out := score(m, row{"x": 1.0})
	want(out, "b", 7.0)''',
  'a chain whose later segment has a predicate on an earlier output', 'outputs become inputs only of models, not of the predicates of following segments')

seed('c08-empty-cell', 'C08',
  [(INP, '''	if ok {
		return output, nil
	}

	if expr.DefaultValue''', '''	if ok && output.String() != "" {
		return output, nil
	}

	if expr.DefaultValue''')],
  '''
	m := build(head("y", "categorical", "string", "x", "categorical", "string") +
		`<TransformationDictionary><DerivedField name="d" optype="categorical" dataType="string"><MapValues outputColumn="out" defaultValue="none"><FieldColumnPair field="x" column="in"/><InlineTable><row><in>a</in><out></out></row></InlineTable></MapValues></DerivedField></TransformationDictionary>` +
		`<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="other"><True/><Node score="none"><SimplePredicate field="d" operator="equal" value="none"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": "q"}), "y", "none")
	want(score(m, row{"x": "a"}), "y", "other")''',
  'a lookup whose matching row has an empty output cell', 'an empty cell of a matching row counts as no match')

seed('c09-empty-string-replaced', 'C09',
  [(MIN, "if !ok || inputVal.Raw() == nil {", "if !ok || inputVal.Raw() == nil || inputVal.Raw() == \"\" {")],
  '''
	m := build(head("y", "categorical", "string", "s", "categorical", "string") + `<MiningModel functionName="classification"><MiningSchema><MiningField name="y" usageType="target"/><MiningField name="s" missingValueReplacement="r"/></MiningSchema>` +
		`<Segmentation multipleModelMethod="selectFirst"><Segment><True/><TreeModel functionName="classification">` + schema("y", "s") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="s" operator="equal" value="r"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"s": ""}), "y", "a")
	want(score(m, row{}), "y", "b")''',
  'an ensemble with a replacement and a row that supplies the empty string', 'a present empty string is replaced')

seed('c10-penalty-in-place', 'C10',
  [(TREE, "		adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))\n", "		adjustedScores := defaultScores\n")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild" missingValuePenalty="0.5">` + schema("y", "x") +
		`<Node score="a" id="0" defaultChild="1"><True/><Node id="1" score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/><ScoreDistribution value="b" recordCount="1"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(b)", 0.5)
	want(score(m, row{}), "probability(b)", 0.5)
	want(score(m, row{"x": 1.0}), "probability(b)", 1.0)''',
  'two evaluations of one model of which the first takes a default child with a penalty', 'the penalty is applied to the distribution stored in the model')

seed('c10-constant-result', 'C10',
  [(REG, "	out[string(outField.Name)] = NewValue(pred)\n", '''	out[string(outField.Name)] = NewValue(pred)
	if len(rtbl.NumericPredictor) == 0 && len(rtbl.CategoricalPredictors) == 0 {
		m.constant = out
	}
'''), (REG, "	out := make(DataRow)\n\n	if len(m.model.RegressionTables) != 1 {", "	out := m.constant\n	if out != nil {\n		return out, nil\n	}\n	out = make(DataRow)\n\n	if len(m.model.RegressionTables) != 1 {"), (REG, "	model *models.RegressionModel\n}", "	model *models.RegressionModel\n\n	constant DataRow\n}")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><RegressionTable intercept="4"/></RegressionModel></PMML>`)
	out := score(m, row{"x": 1.0})
	want(out, "y", 4.0)
	out["y"] = evaluation.NewValue(5.0)
	want(score(m, row{"x": 1.0}), "y", 4.0)''',
  'a model without predictors and a caller that changes a returned result', 'a cached result map is handed out', imports=['github.com/flukeish/pmml/evaluation'])

seed('c11-shared-scratch', 'C11',
  [(REG, "	y := make([]float64, len(m.model.RegressionTables))\n", "	if len(m.scratch) != len(m.model.RegressionTables) {\n		m.scratch = make([]float64, len(m.model.RegressionTables))\n	}\n	y := m.scratch\n"),
   (REG, "	model *models.RegressionModel\n}", "	model *models.RegressionModel\n\n	scratch []float64\n}")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="softmax">` + schema("y", "x") +
		`<Output><OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/></Output>` +
		`<RegressionTable intercept="0" targetCategory="a"/><RegressionTable intercept="0" targetCategory="b"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	ref := map[int]float64{}
	for i := 0; i < 4; i++ {
		ref[i] = score(m, row{"x": float64(i)})["pb"].Float64()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				out, err := m.Evaluate(in(row{"x": float64(g)}))
				if err != nil || out["pb"].Float64() != ref[g] {
					mu.Lock()
					fail("goroutine %d: %v", g, out)
					mu.Unlock()
					return
				}
			}
		}(g)
	}
	wg.Wait()''',
  'two goroutines scoring different rows on one softmax model', 'the scores are kept in a buffer shared by all calls', imports=['sync'], flags='-race ')

seed('c11-test-cache', 'C11',
  [(TREE, '''	switch p.BooleanOperator {
	case models.CompoundPredicateOperatorAnd:
		if unknownCount''', '''	if surrogate {
		return u
	}

	switch p.BooleanOperator {
	case models.CompoundPredicateOperatorAnd:
		if unknownCount'''),
   (TREE, '''	if unknownValues {
		defaultScores, ok := n.evaluateDefaultChild(input)
''', '''	if unknownValues {
		n.m.outKeys = withDefaultKeys(n.m.outKeys, n.scoreDist)
		defaultScores, ok := n.evaluateDefaultChild(input)
'''),
   (TREE, "// evaluateDefaultChild scores", '''// withDefaultKeys makes sure that every class of the distribution has an output key.
func withDefaultKeys(keys map[string]string, dist []scoreDist) map[string]string {
	for _, sc := range dist {
		keys[sc.value] = fmt.Sprintf("probability(%s)", sc.value)
	}

	return keys
}

// evaluateDefaultChild scores'''), (TREE, "score.confidence = score.confidence * float64(n.m.model.MissingValuePenalty)", "score.confidence *= float64(n.m.model.MissingValuePenalty)")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild">` + schema("y", "x") +
		`<Node score="a" id="0" defaultChild="1"><True/><ScoreDistribution value="a" recordCount="1"/><Node id="1" score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/><ScoreDistribution value="b" recordCount="1"/></Node></Node></TreeModel></PMML>`)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5000; k++ {
				if out, err := m.Evaluate(in(row{})); err != nil || out["y"].String() != "b" {
					panic("wrong result")
				}
			}
		}()
	}
	wg.Wait()''',
  'two goroutines scoring rows that take the default child of a node with a distribution', 'scoring writes to a map of the model', imports=['sync'], flags='-race ')

seed('c12-softmax-order', 'C12',
  [(REG, '''	for i, rtbl := range m.model.RegressionTables {
		pred := 0.0

		switch''', '''	scores := make(map[string]float64)
	for i, rtbl := range m.model.RegressionTables {
		scores[string(rtbl.TargetCategory)] = y[i]
	}

	for i, rtbl := range m.model.RegressionTables {
		pred := 0.0

		switch'''),
   (REG, '''			for _, yVal := range y {
				s += math.Exp(finite(yVal) - finite(y[i]))
			}
''', '''			for _, yVal := range scores {
				s += math.Exp(finite(yVal) - finite(y[i]))
			}
'''),
   (REG, '''			for _, yVal := range y {
				s += yVal
			}
''', '''			for _, yVal := range scores {
				s += yVal
			}
''')],
  '''
	doc := head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="simplemax">` + schema("y", "x") + `<Output>`
	for _, c := range "abcdef" {
		doc += fmt.Sprintf(`<OutputField name="p%c" feature="probability" value="%c"/>`, c, c)
	}
	doc += `</Output>`
	for i, c := range "abcdef" {
		doc += fmt.Sprintf(`<RegressionTable intercept="%v" targetCategory="%c"/>`, []float64{1e16, 1, -1e16, 3, 0.7, 0.1}[i], c)
	}
	m := build(doc + `</RegressionModel></PMML>`)
	seen := map[string]bool{}
	for i := 0; i < 2000; i++ {
		out, key := score(m, row{"x": 1.0}), ""
		for _, c := range "abcdef" {
			key += fmt.Sprintf("%b ", out["p"+string(c)].Float64())
		}
		seen[key] = true
	}
	if len(seen) != 1 {
		fail("%d different results", len(seen))
	}''',
  'at least three classes whose scores do not add up exactly', 'the denominator is summed in map iteration order', imports=['fmt'])

seed('c13-second-row', 'C13',
  [(EVA, "				delta := expected - predicted\n", "				delta := math.Abs(expected) - math.Abs(predicted)\n")],
  '''
	doc := func(exp string) string {
		return head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
			`<Output><OutputField name="y"/></Output>` +
			`<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="y" column="data:y" precision="1e-6"/></VerificationFields>` +
			`<InlineTable><row><data:x xmlns:data="d">3</data:x><data:y xmlns:data="d">` + exp + `</data:y></row></InlineTable></ModelVerification>` +
			`<RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`
	}
	if err := build(doc("3")).Verify(); err != nil {
		fail("%v", err)
	}
	if err := build(doc("-3")).Verify(); err == nil {
		fail("accepted the wrong sign")
	}''',
  'an expected output that is the negative of what the model predicts', 'the sign of the prediction is ignored')

seed('c14-integer-constant', 'C14',
  [(INP, "	if constExpr.DataType == models.DataTypeDouble {", "	if constExpr.DataType == models.DataTypeDouble || constExpr.DataType == models.DataTypeInteger {")],
  '''
	m, err := try(head("y", "categorical", "string", "x", "continuous", "double") +
		`<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><Apply function="+"><FieldRef field="x"/><Constant dataType="integer">4.5</Constant></Apply></DerivedField></TransformationDictionary>` +
		`<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="d" operator="greaterThan" value="5.2"/></Node></Node></TreeModel></PMML>`)
	if err == nil {
		var out evaluation.DataRow
		if out, err = m.Evaluate(in(row{"x": 1.0})); err == nil {
			fail("scored %v", out)
		}
	}''',
  'an integer constant', 'integer constants, whose semantics is not implemented, are scored as doubles', imports=['github.com/flukeish/pmml/evaluation'])

seed('c15-no-table', 'C15',
  [(REG, "	if len(m.model.RegressionTables) != 1 {\n		return out, fmt.Errorf(\"regression expects", "	if len(m.model.RegressionTables) > 1 {\n		return out, fmt.Errorf(\"regression expects")],
  '''
	m, err := try(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="y"/></Output></RegressionModel></PMML>`)
	if err == nil {
		_, err = m.Evaluate(in(row{"x": 1.0}))
	}
	if err == nil {
		fail("no error")
	}''',
  'a regression model without a RegressionTable', 'scoring panics with an index out of range')

seed('c16-segment-order', 'C16',
  [(EL, "				x.Nodes = append(x.Nodes, node)\n", '''				if x.DefaultChild != "" && node.ID == x.DefaultChild {
					x.Nodes = append([]Node{node}, x.Nodes...)
				} else {
					x.Nodes = append(x.Nodes, node)
				}
''')],
  '''
	p := decode(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a" id="0" defaultChild="2"><True/><Node id="1" score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node><Node id="2" score="c"><True/></Node></Node></TreeModel></PMML>`)
	if id := p.Models[0].(*models.TreeModel).Node.Nodes[0].ID; id != "1" {
		fail("first child is %s", id)
	}''',
  'a node whose default child is not its first child', 'the default child is moved to the front of the children', imports=['github.com/flukeish/pmml/models'])

seed('c17-raw-cells', 'C17',
  [(EL, '''			key := tok.Name.Local
			var value string
			err = decoder.DecodeElement(&value, &tok)
			if err != nil {
				return err
			}
			x[key] = value

		case xml.EndElement:
			return nil
		}
	}

	return nil
}

/*
  <xs:element name="simpleMatching">''', '''			key := tok.Name.Local
			var cell struct {
				Text string `xml:",innerxml"`
			}
			err = decoder.DecodeElement(&cell, &tok)
			if err != nil {
				return err
			}
			x[key] = cell.Text

		case xml.EndElement:
			return nil
		}
	}

	return nil
}

/*
  <xs:element name="simpleMatching">''')],
  '''
	for _, cell := range []string{"a&b", "<![CDATA[a&b]]>", "a&amp;b", "a<!-- c -->&amp;b", "&#97;&amp;b"} {
		if cell == "a&b" {
			continue
		}
		m := build(head("y", "categorical", "string", "x", "categorical", "string") +
			`<TransformationDictionary><DerivedField name="d" optype="categorical" dataType="string"><MapValues outputColumn="out"><FieldColumnPair field="x" column="in"/><InlineTable><row><in>` + cell + `</in><out>A</out></row></InlineTable></MapValues></DerivedField></TransformationDictionary>` +
			`<TreeModel functionName="classification">` + schema("y", "x") +
			`<Node score="none"><True/><Node score="hit"><SimplePredicate field="d" operator="equal" value="A"/></Node></Node></TreeModel></PMML>`)
		want(score(m, row{"x": "a&b"}), "y", "hit")
	}''',
  'a comment, character reference or CDATA section in a cell of an inline table', 'cells are kept as raw markup')

seed('c18-record-count', 'C18',
  [(EL, '''				v, err := strconv.ParseFloat(attr.Value, 64)
				if err != nil {
					return err
				}

				x.RecordCount = Number(v)
''', '''				if v, err := strconv.ParseFloat(attr.Value, 64); err == nil {
					x.RecordCount = Number(v)
				}
''')],
  '''
	doc := head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b" recordCount="1O"><True/></Node></Node></TreeModel></PMML>`
	var p models.PMML
	if err := xml.Unmarshal([]byte(doc), &p); err == nil {
		fail("accepted")
	}''',
  'a record count that is not a number', 'the malformed count is read as zero', imports=['encoding/xml', 'github.com/flukeish/pmml/models'])

seed('c19-int-cache', 'C19',
  [('models/complexTypes.go', '''	result := []int64{}

	for i := range ints {
		val, err := strconv.ParseInt(ints[i], 10, 64)
		if err != nil {
			return nil, err
		}

		result = append(result, val)
	}

	at.i = result
''', '''	at.i = []int64{}

	for i := range ints {
		val, err := strconv.ParseInt(ints[i], 10, 64)
		if err != nil {
			return nil, err
		}

		at.i = append(at.i, val)
	}
''')],
  '''
	a := models.ArrayType{Type: models.ArrayTypeTypeInt, RawValue: "1 x 3"}
	for i := 0; i < 2; i++ {
		if v, err := a.Int64s(); err == nil {
			fail("time %d: %v", i+1, v)
		}
	}''',
  'asking a malformed int array for its elements twice', 'the second time yields the elements before the malformed one instead of an error', imports=['github.com/flukeish/pmml/models'])

seed('c20-int16', 'C20',
  [(VAL, '''	if f, ok := v.val.(uint16); ok {
		return int64(f)
	}
''', '''	if f, ok := v.val.(uint16); ok {
		return int64(int16(f))
	}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "integer") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="greaterThan" value="100"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 40000}), "y", "b")
	want(score(m, row{"x": uint16(40000)}), "y", "b")''',
  'an uint16 of at least 32768', 'the value wraps around to a negative number')

seed('c21-sibling-types', 'C21',
  [(TREE, '''	m.fieldTypes = make(map[models.FieldName]models.DataType)

	for _, df := range m.dd.DataFields {
		m.fieldTypes[df.Name] = df.DataType
	}
''', '''	m.fieldTypes = make(map[models.FieldName]models.DataType)

	for i, df := range m.dd.DataFields {
		m.fieldTypes[df.Name] = df.DataType

		for _, lf := range m.model.LocalTransformations.DerivedFields {
			if models.FieldName(lf.Name) == df.Name && lf.DataType != "" {
				m.dd.DataFields[i].DataType = lf.DataType
			}
		}
	}
''')],
  '''
	tree := func(lt string) string {
		return `<Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + lt +
			`<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="equal" value="1"/></Node></Node></TreeModel></Segment>`
	}
	lt := `<LocalTransformations><DerivedField name="x" optype="categorical" dataType="string"><FieldRef field="x"/></DerivedField></LocalTransformations>`
	doc := func(segs string) string {
		return head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") +
			`<Output><OutputField name="y"/></Output><Segmentation multipleModelMethod="sum">` + segs + `</Segmentation></MiningModel></PMML>`
	}
	want(score(build(doc(tree("") + tree(lt))), row{"x": "1.0"}), "y", 3.0)
	want(score(build(doc(tree(lt) + tree(""))), row{"x": "1.0"}), "y", 3.0)''',
  'a segment whose local derived field shadows a data field with another type, before a sibling that uses the field', 'the type of the local derived field leaks into the siblings that follow')

# ---- second batch

seed('c08-joined-keys', 'C08',
  [(INP, '''	for _, mapping := range expr.InlineTables {
		for _, row := range mapping.Rows {
			if rowMatches(row, expr.FieldColumnPairs, columns) {
				columns[outputColumn] = NewValue(row[localName(outputColumn)])
			}
		}
	}
''', '''	key, complete := "", true
	for _, pair := range expr.FieldColumnPairs {
		data, ok := columns[pair.Column]
		complete = complete && ok
		key += data.String()
	}

	for _, mapping := range expr.InlineTables {
		index := make(map[string]models.Row, len(mapping.Rows))
		for _, row := range mapping.Rows {
			index[rowKey(row, expr.FieldColumnPairs)] = row
		}

		if row, ok := index[key]; ok && complete {
			columns[outputColumn] = NewValue(row[localName(outputColumn)])
		}
	}
'''), (INP, '''func rowMatches(row models.Row, pairs []models.FieldColumnPair, columns map[string]Value) bool {
	for _, pair := range pairs {
		data, ok := columns[pair.Column]
		if !ok || row[localName(pair.Column)] != data.String() {
			return false
		}
	}

	return true
}
''', '''// rowKey joins the cells of a row that a lookup compares.
func rowKey(row models.Row, pairs []models.FieldColumnPair) string {
	key := ""
	for _, pair := range pairs {
		cell, _ := row[localName(pair.Column)].(string)
		key += cell
	}

	return key
}
''')],
  '''
	m := build(head("y", "continuous", "double", "a", "categorical", "string", "b", "categorical", "string") + `<RegressionModel functionName="regression">` + schema("y", "a", "b") +
		`<Output><OutputField name="y"/></Output><LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><MapValues outputColumn="o" defaultValue="7"><FieldColumnPair field="a" column="p"/><FieldColumnPair field="b" column="q"/><InlineTable><row><p>1</p><q>11</q><o>3</o></row></InlineTable></MapValues></DerivedField></LocalTransformations>` +
		`<RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"a": "1", "b": "11"}), "y", 3.0)
	want(score(m, row{"a": "11", "b": "1"}), "y", 7.0)''',
  'a lookup on two columns and values whose concatenations are those of a row, split elsewhere', 'table rows are found by the concatenation of their cells')

seed('c13-small-expectations', 'C13',
  [(EVA, '''				delta := expected - predicted
				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {''', '''				delta := math.Abs(expected - predicted)
				if !(delta <= 1e-5*math.Max(math.Abs(expected), math.Abs(predicted))) && !(delta < 1e-12) {''')],
  '''
	doc := head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable>` +
		`<ModelVerification recordCount="1"><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="out" column="data:out" precision="1E-6"/></VerificationFields><InlineTable><row><data:x>%s</data:x><data:out>%s</data:out></row></InlineTable></ModelVerification></RegressionModel></PMML>`
	if err := build(fmt.Sprintf(doc, "2e-13", "2e-13")).Verify(); err != nil {
		fail("right expectation: %v", err)
	}
	if err := build(fmt.Sprintf(doc, "2e-13", "5e-13")).Verify(); err == nil {
		fail("wrong expectation accepted")
	}''',
  'an expected output of tiny magnitude', 'Verify also accepts absolute differences below 1e-12', imports=['fmt'])

seed('c16-members-first', 'C16',
  [(EL, '''					x.Predicates = append(x.Predicates, item)
				}
			}

		case xml.EndElement:
			return nil''', '''					if _, nested := item.(*CompoundPredicate); nested || len(x.Predicates) == 0 {
						x.Predicates = append(x.Predicates, item)
					} else {
						// Cheap members first: an operator's result does not depend on their order.
						last := len(x.Predicates) - 1
						if _, nested := x.Predicates[last].(*CompoundPredicate); nested {
							x.Predicates = append(x.Predicates[:last], item, x.Predicates[last])
						} else {
							x.Predicates = append(x.Predicates, item)
						}
					}
				}
			}

		case xml.EndElement:
			return nil''')],
  '''
	p := decode(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><CompoundPredicate booleanOperator="surrogate"><CompoundPredicate booleanOperator="and"><True/><True/></CompoundPredicate><False/></CompoundPredicate></Node></TreeModel></PMML>`)
	c := p.Models[0].(*models.TreeModel).Node.Predicate.(*models.CompoundPredicate)
	if _, ok := c.Predicates[0].(*models.CompoundPredicate); !ok || len(c.Predicates) != 2 {
		fail("members out of order")
	}''',
  'a compound predicate with a compound member before a simple one', 'nested compound members are moved behind the others', imports=['github.com/flukeish/pmml/models'])

seed('c18-trailing-garbage', 'C18',
  [(EL, '''				v, err := strconv.ParseFloat(attr.Value, 64)
				if err != nil {
					return err
				}

				x.RecordCount = Number(v)''', '''				v, err := strconv.ParseFloat(strings.SplitN(attr.Value, " ", 2)[0], 64)
				if err != nil {
					return err
				}

				x.RecordCount = Number(v)'''),
   (EL, '''import (
''', '''import (
	"strings"
''')],
  '''
	doc := head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") + `<Node score="a" recordCount="%s"><True/></Node></TreeModel></PMML>`
	var p models.PMML
	if xml.Unmarshal([]byte(fmt.Sprintf(doc, "12")), &p) != nil {
		fail("right document refused")
	}
	if xml.Unmarshal([]byte(fmt.Sprintf(doc, "12 x")), &p) == nil {
		fail("damaged number accepted")
	}''',
  'a record count followed by a blank and something else', 'what follows a blank in a node\'s record count is ignored', imports=['encoding/xml', 'fmt', 'github.com/flukeish/pmml/models'])

seed('c20-uint32-sign', 'C20',
  [(VAL, '''	if f, ok := v.val.(uint32); ok {
		return int64(f)
	}''', '''	if f, ok := v.val.(uint32); ok {
		return int64(int32(f))
	}''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": uint32(7)}), "y", 7.0)
	want(score(m, row{"x": uint32(3000000000)}), "y", 3e9)''',
  'a uint32 beyond the range of int32', 'uint32 values wrap around')

seed('c14-extra-arguments', 'C14',
  [(INP, '''		if len(apply.Expressions) != 2 {
			return''', '''		if len(apply.Expressions) < 2 {
			return''')],
  '''
	doc := head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Apply function="-"><FieldRef field="x"/><FieldRef field="x"/><FieldRef field="x"/></Apply></DerivedField></LocalTransformations>` +
		`<RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`
	if m, err := try(doc); err == nil {
		if out, err := m.Evaluate(in(row{"x": 1.0})); err == nil {
			fail("scored: %v", out)
		}
	}''',
  'a binary function with three arguments', 'the third argument is ignored')

seed('c14-skipped-expression', 'C14',
  [(EL, '''			case "NormContinuous":
				item = &NormContinuous{}
			case "NormDiscrete":
				item = &NormDiscrete{}
			case "TextIndex":
				item = &TextIndex{}
			}

			if item != nil {
				err = decoder.DecodeElement(item, &tok)
				if err != nil {
					return err
				}

				x.Expressions = append(x.Expressions, item)''', '''			case "NormContinuous":
				item = &NormContinuous{}
			case "NormDiscrete":
				item = &NormDiscrete{}
			default:
				err = decoder.Skip()
				if err != nil {
					return err
				}
			}

			if item != nil {
				err = decoder.DecodeElement(item, &tok)
				if err != nil {
					return err
				}

				x.Expressions = append(x.Expressions, item)''')],
  '''
	doc := head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Apply function="sum"><FieldRef field="x"/><TextIndex textField="x"><Constant dataType="string">t</Constant></TextIndex></Apply></DerivedField></LocalTransformations>` +
		`<RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`
	if m, err := try(doc); err == nil {
		if out, err := m.Evaluate(in(row{"x": 1.0})); err == nil {
			fail("scored: %v", out)
		}
	}''',
  'a sum one of whose arguments is a TextIndex', 'unsupported arguments are dropped while decoding')

seed('c15-if-without-else', 'C15',
  [(INP, '''		if len(apply.Expressions) != 3 {
			return''', '''		if len(apply.Expressions) < 2 || len(apply.Expressions) > 3 {
			return'''),],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Apply function="if"><Apply function="isMissing"><FieldRef field="x"/></Apply><Constant dataType="double">1</Constant></Apply></DerivedField></LocalTransformations>` +
		`<RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	m.Evaluate(in(row{}))
	m.Evaluate(in(row{"x": 1.0}))''',
  'an if with two arguments and a false condition', 'scoring panics instead of refusing the expression')

seed('c09-nan-replaced', 'C09',
  [(MIN, "		if !ok || inputVal.Raw() == nil {", "		if !ok || inputVal.Raw() == nil || math.IsNaN(inputVal.Float64()) {")],
  '''
	m := build(head("y", "categorical", "string", "x", "categorical", "string", "z", "continuous", "double") + `<MiningModel functionName="regression"><MiningSchema><MiningField name="y" usageType="target"/><MiningField name="x" missingValueReplacement="k"/></MiningSchema>` +
		`<Output><OutputField name="y"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") +
		`<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="equal" value="NaN"/></Node><Node score="3"><SimplePredicate field="x" operator="equal" value="k"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": "NaN"}), "y", 2.0)
	want(score(m, row{}), "y", 3.0)
	want(score(m, row{"x": "z"}), "y", 1.0)''',
  'a string field whose value reads as not a number, with a replacement, in an ensemble', 'the replacement is used although the field is present')

seed('c07-targets-before-average', 'C07',
  [(MIN, '''	if average && segments > 0 {
		for k, v := range scoreMap {
			scoreMap[k] = v / float64(segments)
		}
	}

	for _, target''', '''	for _, target'''),
   (MIN, '''	out := make(DataRow)
	for k, v := range scoreMap {
		out[string(k)] = NewValue(v)
	}
''', '''	divisor := 1.0
	if average && segments > 0 {
		divisor = float64(segments)
	}

	out := make(DataRow)
	for k, v := range scoreMap {
		out[string(k)] = NewValue(v / divisor)
	}
''')],
  '''
	seg := `<Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="4"><True/></Node></TreeModel></Segment>`
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") +
		`<Targets><Target field="y" rescaleConstant="10"/></Targets><Segmentation multipleModelMethod="average">` + seg + seg + `</Segmentation></MiningModel></PMML>`)
	want(score(m, row{}), "y", 14.0)''',
  'an average with a rescaled target', 'the rescaling happens before the division')

seed('c05-trimmed-label', 'C05',
  [(TREE, '			out[string(m.targetField)] = NewValue(best.value)', '			out[string(m.targetField)] = NewValue(strings.TrimSpace(best.value))'),
   (TREE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node><True/><ScoreDistribution value=" a" recordCount="2"/><ScoreDistribution value="b" recordCount="1"/></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", " a")''',
  'a class label that begins or ends with a blank', 'the reported label is not the declared one')

seed('c05-whole-records', 'C05',
  [(TREE, '		totalRecords += float64(sc.RecordCount)', '		totalRecords += float64(int(sc.RecordCount))')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node><True/><ScoreDistribution value="a" recordCount="2.5"/><ScoreDistribution value="b" recordCount="1.5"/></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(a)", 0.625)''',
  'record counts that are not whole', 'the shares are relative to a truncated total')

seed('c06-zero-coefficient', 'C06',
  [(REG, '''	for _, np := range rtbl.NumericPredictor {
		term, ok := input[np.Name]
		if''', '''	for _, np := range rtbl.NumericPredictor {
		if np.Coefficient == 0 {
			continue
		}

		term, ok := input[np.Name]
		if'''), (REG, '''		coeff := np.Coefficient
		y += coeff * indVar''', '''		y += np.Coefficient * indVar''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><RegressionTable intercept="1"><NumericPredictor name="x" coefficient="0"/></RegressionTable></RegressionModel></PMML>`)
	if out, err := m.Evaluate(in(row{})); err == nil {
		fail("scored %v", out)
	}
	want(score(m, row{"x": 3.0}), "y", 1.0)''',
  'a missing predictor whose coefficient is 0', 'it is not reported as missing')

seed('c10-row-identity', 'C10',
  [(MIN, '''	input, err = m.imputeMissingValues(input)
	if err != nil {
		return nil, err
	}
''', '''	m.mu.Lock()
	defer m.mu.Unlock()

	given := reflect.ValueOf(input).Pointer()
	if m.last != nil && m.lastInput == given && len(input) == m.lastLen {
		return m.last.clone(), nil
	}

	fields := len(input)
	defer func() {
		if err == nil {
			m.last, m.lastInput, m.lastLen = out.clone(), given, fields
		}
	}()

	input, err = m.imputeMissingValues(input)
	if err != nil {
		return nil, err
	}
'''), (MIN, '''func (m *MiningModel) Evaluate(input DataRow) (DataRow, error) {
	var err error
''', '''func (m *MiningModel) Evaluate(input DataRow) (out DataRow, err error) {'''),
   (MIN, "	targets       []models.Target\n}", "	targets       []models.Target\n\n	mu        sync.Mutex\n	last      DataRow\n	lastInput uintptr\n	lastLen   int\n}"),
   (MIN, '''	"math"
''', '''	"math"
	"reflect"
	"sync"
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") +
		`<Output><OutputField name="y"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") +
		`<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	r := in(row{"x": -1.0})
	want(score2(m, r), "y", 1.0)
	r["x"] = evaluation.NewValue(5.0)
	want(score2(m, r), "y", 2.0)''',
  'scoring one row object twice with a field changed in between', 'an ensemble repeats its last result for the same row object',
  imports=['github.com/flukeish/pmml/evaluation'], decl='''func score2(m evaluation.Model, r evaluation.DataRow) evaluation.DataRow {
	out, err := m.Evaluate(r)
	if err != nil {
		fail("%v", err)
	}
	return out
}
''')

seed('c01-leading-zeros', 'C01',
  [(EVA, "		return strconv.ParseInt(val, 10, 64)", "		return strconv.ParseInt(val, 0, 64)")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "integer") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="010"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 10}), "y", "b")
	want(score(m, row{"x": 8}), "y", "a")''',
  'an integer predicate value written with leading zeros', 'it is read as octal')

seed('c19-leading-zeros', 'C19',
  [('models/complexTypes.go', "		val, err := strconv.ParseInt(ints[i], 10, 64)", "		val, err := strconv.ParseInt(ints[i], 0, 64)")],
  '''
	n := 2
	at := models.ArrayType{N: &n, Type: models.ArrayTypeTypeInt, RawValue: "010 -007"}
	v, err := at.Int64s()
	if err != nil || len(v) != 2 || v[0] != 10 || v[1] != -7 {
		fail("%v %v", v, err)
	}''',
  'an int array element with leading zeros', 'it is read as octal', imports=['github.com/flukeish/pmml/models'])

seed('c02-or-stops-at-unknown', 'C02',
  [(TREE, '''		if val == t {
			trueCount++
		} else if val == u {
			unknownCount++
		}
''', '''		switch val {
		case t:
			trueCount++
		case u:
			unknownCount++
		}

		if unknownCount > 1 && trueCount == 0 && p.BooleanOperator != models.CompoundPredicateOperatorAnd {
			break
		}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double", "z", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x", "z") +
		`<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="or"><SimplePredicate field="x" operator="greaterThan" value="0"/><SimplePredicate field="z" operator="greaterThan" value="0"/><True/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", "b")''',
  'an or of two unknown members before a true one', 'it is unknown instead of true')

seed('c03-last-true-child', 'C03',
  [(TREE, '''		if childResult == t {
			trueChild = true
			trueDist = score
			break
		}
	}

	if unknownValues {
		return n.ownScoreDist(), t
	}
''', '''		if childResult == t {
			trueChild = true
			trueDist = score
			if c.leaf() {
				break
			}
		}
	}

	if unknownValues {
		return n.ownScoreDist(), t
	}
'''), (TREE, '''		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)
''', '''		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input) // the child's prediction
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="lastPrediction">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><True/><Node score="c"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></Node><Node score="d"><SimplePredicate field="x" operator="greaterThan" value="1"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 0.5}), "y", "c")
	want(score(m, row{"x": 2.0}), "y", "c")''',
  'lastPrediction with a true interior child followed by a true sibling', 'the later sibling wins')

seed('c12-chain-order', 'C12',
  [(MIN, '''	lastOut := make(DataRow)

	for i''', '''	lastOut := make(DataRow)
	seen := make(map[string]bool)

	for i'''), (MIN, '''		for k, v := range lastOut {
			input[k] = v
		}
''', '''		for k, v := range lastOut {
			if name := strings.ToLower(k); !seen[name] {
				input[k] = v
				seen[name] = true
			}
		}
'''), (MIN, '''	"math"
''', '''	"math"
	"strings"
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") +
		`<Segmentation multipleModelMethod="modelChain"><Segment><True/><RegressionModel functionName="classification" normalizationMethod="softmax">` + schema("y", "x") +
		`<Output><OutputField name="p" feature="probability" value="a"/><OutputField name="P" feature="probability" value="b"/></Output><RegressionTable intercept="0" targetCategory="a"/><RegressionTable intercept="2" targetCategory="b"/></RegressionModel></Segment>` +
		`<Segment><True/><RegressionModel functionName="regression">` + schema("y", "p", "P") + `<Output><OutputField name="y"/></Output><RegressionTable intercept="1"><NumericPredictor name="p" coefficient="1"/><NumericPredictor name="P" coefficient="1"/></RegressionTable></RegressionModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"p": 0.0, "P": 0.0}), "y", 2.0)''',
  'a chain whose first model has two outputs that differ in case only, both also in the row', 'which of the two reaches the next model depends on the iteration order of a map')

seed('c21-growing-dictionary', 'C21',
  [(MIN, '''		segmdl := seg.Models[0]
		mdl, err := NewModel(m.dd, td, segmdl)
''', '''		segmdl := seg.Models[len(seg.Models)-1]
		if tree, ok := segmdl.(*models.TreeModel); ok && len(td.DerivedFields) > 0 {
			// Trees look their fields up in the dictionary only.
			td.DerivedFields = append(td.DerivedFields, tree.LocalTransformations.DerivedFields...)
		}

		mdl, err := NewModel(m.dd, td, segmdl)
''')],
  '''
	seg := func(v string) string {
		return `<Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Constant dataType="double">` + v + `</Constant></DerivedField></LocalTransformations>` +
			`<Node score="0"><True/><Node score="1"><SimplePredicate field="d" operator="equal" value="1"/></Node><Node score="100"><SimplePredicate field="d" operator="equal" value="2"/></Node></Node></TreeModel></Segment>`
	}
	lt := `<LocalTransformations>`
	for _, n := range []string{"a", "b", "c"} {
		lt += `<DerivedField name="` + n + `" optype="continuous" dataType="double"><FieldRef field="x"/></DerivedField>`
	}
	reg := `<Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<LocalTransformations><DerivedField name="e" optype="continuous" dataType="double"><FieldRef field="d" mapMissingTo="7"/></DerivedField></LocalTransformations><Node score="5"><True/><Node score="9"><SimplePredicate field="e" operator="equal" value="7"/></Node></Node></TreeModel></Segment>`
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="y"/></Output>` + lt + `</LocalTransformations>` +
		`<Segmentation multipleModelMethod="sum">` + seg("1") + reg + seg("2") + `</Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", 110.0)''',
  'a tree segment with local transformations under an ensemble with derived fields of its own', 'its derived fields reach later siblings')

seed('c04-whole-weights', 'C04',
  [(TREE, "			totalRecordCount += c.score.recordCount\n", "			totalRecordCount += math.Round(c.score.recordCount)\n"), (TREE, '''	"strconv"
''', '''	"math"
	"strconv"
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="weightedConfidence">` + schema("y", "x") +
		`<Node score="a" recordCount="10"><True/><Node score="a" recordCount="4.4"><SimplePredicate field="x" operator="greaterThan" value="0"/><ScoreDistribution value="a" recordCount="4.4"/></Node>` +
		`<Node score="b" recordCount="5.4"><SimplePredicate field="x" operator="lessOrEqual" value="0"/><ScoreDistribution value="b" recordCount="5.4"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(a)", 4.4/9.8)
	want(score(m, row{}), "probability(b)", 5.4/9.8)''',
  'children with fractional record counts such as 4.4 and 5.4', 'the weights do not add up to 1')

seed('c17-first-token', 'C17',
  [(EL, '''					x.Models = append(x.Models, model)
				}
			}
		case xml.EndElement:
			return nil''', '''					x.Models = append(x.Models, model)
				}
			}
		case xml.ProcInst, xml.EndElement:
			if _, end := tok.(xml.EndElement); !end && len(x.Models) > 0 {
				return decoder.Skip()
			} else if end {
				return nil
			}''')],
  '''
	doc := head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") + `<Node score="a"><True/></Node></TreeModel><?pi?><TreeModel functionName="classification">` + schema("y", "x") + `<Node score="b"><True/></Node></TreeModel></PMML>`
	if n := len(decode(doc).Models); n != 2 {
		fail("%d models", n)
	}
	p := decode(doc)
	m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[len(p.Models)-1])
	if err != nil {
		fail("%v", err)
	}
	want(score(m, row{}), "y", "b")''',
  'a processing instruction between two models', 'decoding stops at it', imports=['github.com/flukeish/pmml/evaluation'])

# Third batch.
TRA = 'evaluation/transformation.go'
seed('c22-types-per-dictionary', 'C22',
  [(TREE, '''	m.fieldTypes = make(map[models.FieldName]models.DataType)

	for _, df := range m.dd.DataFields {
		m.fieldTypes[df.Name] = df.DataType
	}
''', '''	m.fieldTypes = typesOf(m.dd)
'''), (TREE, '''func (m *TreeModel) Compile() error {''', '''var (
	typesMu sync.Mutex
	types   = map[*models.DataDictionary]map[models.FieldName]models.DataType{}
)

// typesOf is computed once per dictionary.
func typesOf(dd *models.DataDictionary) map[models.FieldName]models.DataType {
	typesMu.Lock()
	defer typesMu.Unlock()
	if types[dd] == nil {
		types[dd] = make(map[models.FieldName]models.DataType)
		for _, df := range dd.DataFields {
			types[dd][df.Name] = df.DataType
		}
	}
	return types[dd]
}

func (m *TreeModel) Compile() error {'''), (TREE, '''	"strconv"
''', '''	"strconv"
	"sync"
''')],
  '''
	tree := func(typ, v string) string {
		return `<TreeModel functionName="classification">` + schema("y", "x") + `<LocalTransformations><DerivedField name="d" optype="categorical" dataType="` + typ + `"><FieldRef field="x"/></DerivedField></LocalTransformations>` +
			`<Node score="a"><True/><Node score="b"><SimplePredicate field="d" operator="` + v + `" value="1.0"/></Node></Node></TreeModel>`
	}
	p := decode(head("y", "categorical", "string", "x", "continuous", "double") + tree("double", "lessThan") + tree("string", "equal") + `</PMML>`)
	var ms []evaluation.Model
	for _, mdl := range p.Models {
		m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, mdl)
		if err != nil {
			fail("%v", err)
			return
		}
		ms = append(ms, m)
	}
	want(score(ms[0], row{"x": 0.5}), "y", "b")
	want(score(ms[1], row{"x": 1.0}), "y", "a")''',
  'two trees of one document with derived fields of the same name and different types', 'the first compares in the type of the second', imports=['github.com/flukeish/pmml/evaluation'])

seed('c22-same-name', 'C22',
  [(EVA, '''	switch v := mdl.(type) {
	case *models.TreeModel:
		return NewTreeModel(dd, td, v)
	case *models.MiningModel:
		return NewMiningModel(dd, td, v)
	case *models.RegressionModel:
		return NewRegressionModel(dd, td, v)
''', '''	switch v := mdl.(type) {
	case *models.RegressionModel:
		return NewRegressionModel(dd, td, v)
	case *models.MiningModel:
		return NewMiningModel(dd, td, v)
	case *models.TreeModel:
		if v.ModelName != "" {
			k := treeKey{dd, v.ModelName}
			if m, ok := trees.Load(k); ok {
				return m.(*TreeModel), nil
			}
			m, err := NewTreeModel(dd, td, v)
			if err == nil {
				trees.Store(k, m)
			}
			return m, err
		}
		return NewTreeModel(dd, td, v)
'''), (EVA, '''func NewModel(''', '''type treeKey struct {
	dd   *models.DataDictionary
	name string
}

// trees built before.
var trees sync.Map

func NewModel('''), (EVA, '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  '''
	tree := func(v string) string {
		return `<TreeModel modelName="m" functionName="regression">` + schema("y", "x") + `<Node score="` + v + `"><True/></Node></TreeModel>`
	}
	p := decode(head("y", "continuous", "double", "x", "continuous", "double") + tree("1") + tree("2") + `</PMML>`)
	for i, mdl := range p.Models {
		m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, mdl)
		if err != nil {
			fail("%v", err)
			return
		}
		want(score(m, row{"x": 1.0}), "score", float64(i+1))
	}''',
  'two trees of one document with the same modelName', 'the second is taken for the first', imports=['github.com/flukeish/pmml/evaluation'])

seed('c23-sorted-dictionary', 'C23',
  [(TREE, '''		for _, field := range n.m.dd.DataFields {
			if field.Name == n.m.targetField {
''', '''		fields := n.m.dd.DataFields
		if len(fields) > 8 {
			at := sort.Search(len(fields), func(i int) bool { return fields[i].Name >= n.m.targetField })
			fields = fields[at:]
		}
		for _, field := range fields {
			if field.Name == n.m.targetField {
'''), (TREE, '''	"strconv"
''', '''	"sort"
	"strconv"
''')],
  '''
	dd := `<PMML xmlns="http://www.dmg.org/PMML-4_2" version="4.2"><Header/><DataDictionary><DataField name="y" optype="categorical" dataType="string"><Value value="a"/><Value value="b"/></DataField>`
	for _, n := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"} {
		dd += `<DataField name="` + n + `" optype="continuous" dataType="double"/>`
	}
	m := build(dd + `</DataDictionary><TreeModel functionName="classification">` + schema("y", "a") + `<Node score="a"><True/></Node></TreeModel></PMML>`)
	out := score(m, row{"a": 1.0})
	want(out, "y", "a")
	want(out, "probability(a)", 1.0)
	want(out, "probability(b)", 0.0)''',
  'a dictionary of more than eight fields in which the target comes before fields with smaller names', 'the declared classes are not found')

seed('c01-negative-fraction', 'C01',
  [(EVA, '''	case models.DataTypeDouble:
		return strconv.ParseFloat(val, 64)
	case models.DataTypeFloat:
''', '''	case models.DataTypeDouble, models.DataTypeFloat:
		if f, ok := parseDecimal(val); ok {
			return f, nil
		}
		return strconv.ParseFloat(val, 64)
'''), (EVA, '''func getRawValue(''', '''// parseDecimal reads short plain decimals.
func parseDecimal(s string) (float64, bool) {
	dot := strings.IndexByte(s, '.')
	if dot <= 0 || len(s) > 12 {
		return 0, false
	}
	whole, err := strconv.ParseInt(s[:dot], 10, 64)
	if err != nil {
		return 0, false
	}
	part, err := strconv.ParseUint(s[dot+1:], 10, 64)
	if err != nil {
		return 0, false
	}
	scale := int64(1)
	for range s[dot+1:] {
		scale *= 10
	}
	if whole < 0 {
		return float64(whole*scale-int64(part)) / float64(scale), true
	}
	return float64(whole*scale+int64(part)) / float64(scale), true
}

func getRawValue(''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="lessThan" value="-0.5"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 0.0}), "y", "a")
	want(score(m, row{"x": -1.0}), "y", "b")''',
  'a predicate value between -1 and 0', 'its sign is lost')

seed('c23-numeric-identifiers', 'C23',
  [(TREE, '''		defaultChild: modelNode.DefaultChild,
''', '''		defaultChild: canonicalID(modelNode.DefaultChild),
'''), (TREE, '''		id:           modelNode.ID,
''', '''		id:           canonicalID(modelNode.ID),
'''), (TREE, '''func newNode(''', '''// canonicalID lets numeric identifiers be written with leading zeros.
func canonicalID(id string) string {
	if n, err := strconv.Atoi(id); err == nil {
		return strconv.Itoa(n)
	}
	return id
}

func newNode(''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild">` + schema("y", "x") +
		`<Node id="0" score="a" defaultChild="1"><True/><Node id="01" score="b"><SimplePredicate field="x" operator="lessThan" value="0"/></Node><Node id="1" score="c"><SimplePredicate field="x" operator="greaterOrEqual" value="0"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", "c")''',
  'siblings whose identifiers are 01 and 1', 'the default child is the wrong one')

seed('c13-inputs-seen', 'C13',
  [(EVA, '''	for _, vRow := range mv.InlineTable.Rows {
''', '''	seen := map[string]bool{}
	for i := range mv.InlineTable.Rows {
		vRow := mv.InlineTable.Rows[i]
		key := ""
		for _, vField := range mv.VerificationFields.Fields {
			if vField.Precision == nil {
				key += fmt.Sprint(vRow[vField.Column[5:]]) + "\\x00"
			}
		}
		if seen[key] {
			continue
		}
		seen[key] = true

''')],
  '''
	doc := func(second string) string {
		return head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") +
			`<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="score" column="data:s" precision="1e-6"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:s>5</data:s></row><row><data:x>1</data:x><data:s>` + second + `</data:s></row></InlineTable></ModelVerification>` +
			`<Node score="5"><True/></Node></TreeModel></PMML>`
	}
	if err := build(doc("5")).Verify(); err != nil {
		fail("verify: %v", err)
	}
	if build(doc("6")).Verify() == nil {
		fail("a wrong expectation passes")
	}''',
  'two verification rows with the same inputs, the later with wrong expectations', 'the later is not looked at')

seed('c11-lazy-validate', 'C11',
  [(REG, '''func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
	input, err :=''', '''func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
	if !m.validated {
		if err := m.Validate(); err != nil {
			return nil, err
		}
		m.validated = true
	}

	input, err :='''), (REG, '''	validated bool
	compiled  bool
''', '''	validated bool // set by the first Evaluate
	compiled  bool
''')],
  '''
	tab := `<RegressionTable intercept="1"><NumericPredictor name="x" coefficient="2"/></RegressionTable>`
	p := decode(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="y"/></Output>` + tab + `</RegressionModel></PMML>`)
	m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0])
	if err != nil {
		fail("%v", err)
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out, err := m.Evaluate(in(row{"x": 1.0}))
			if err != nil || out["y"].Float64() != 3 {
				panic("wrong")
			}
		}()
	}
	wg.Wait()''',
  'the first scorings of a regression model happen at the same time', 'they race', imports=['sync', 'github.com/flukeish/pmml/evaluation'], flags='-race ')

seed('c16-repeated-rows', 'C16',
  [(EL, '''				x.Rows = append(x.Rows, row)
			}
''', '''				if n := len(x.Rows); n == 0 || len(row) < 2 || !reflect.DeepEqual(x.Rows[n-1], row) {
					x.Rows = append(x.Rows, row)
				}
			}
'''), (EL, '''	"strconv"
''', '''	"reflect"
	"strconv"
''')],
  '''
	p := decode(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") +
		`<ModelVerification><VerificationFields/><InlineTable><row><data:x>1</data:x><data:s>5</data:s></row><row><data:x>1</data:x><data:s>5</data:s></row></InlineTable></ModelVerification>` +
		`<Node score="5"><True/></Node></TreeModel></PMML>`)
	if n := len(p.Models[0].(*models.TreeModel).ModelVerification.InlineTable.Rows); n != 2 {
		fail("%d rows", n)
	}''',
  'equal consecutive rows with several cells', 'only one of them is kept', imports=['github.com/flukeish/pmml/models'])

seed('c07-first-with-result', 'C07',
  [(MIN, '''		return segOut, nil
	}
''', '''		if len(segOut) > 0 {
			return segOut, nil
		}
	}
''')],
  '''
	seg := func(root string, v string) string {
		return `<Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="` + v + `">` + root + `</Node></TreeModel></Segment>`
	}
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Segmentation multipleModelMethod="selectFirst">` +
		seg(`<SimplePredicate field="x" operator="greaterThan" value="0"/>`, "1") + seg(`<True/>`, "2") + `</Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "score", 1.0)
	if out, _ := m.Evaluate(in(row{"x": -1.0})); len(out) != 0 {
		fail("%v", out)
	}''',
  'selectFirst with a selected segment that gives no prediction', 'the next segment answers')

seed('c06-integer-power', 'C06',
  [(REG, '''			indVar := math.Pow(term.Float64(), float64(np.Exponent))
			coeff := np.Coefficient
			y[i] += coeff * indVar
''', '''			y[i] += np.Coefficient * power(term.Float64(), int(np.Exponent))
'''), (REG, '''func (m *RegressionModel) EvaluateBinaryClassification(''', '''func power(x float64, n int) float64 {
	p := 1.0
	for ; n > 0; n /= 2 {
		if n%2 == 1 {
			p *= x
		}
		x *= x
	}
	return p
}

func (m *RegressionModel) EvaluateBinaryClassification(''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="softmax">` + schema("y", "x") +
		`<Output><OutputField name="p" feature="probability" value="1"/><OutputField name="q" feature="probability" value="0"/></Output>` +
		`<RegressionTable intercept="0" targetCategory="1"><NumericPredictor name="x" coefficient="4" exponent="-1"/></RegressionTable><RegressionTable intercept="0" targetCategory="0"/></RegressionModel></PMML>`)
	want(score(m, row{"x": 2.0}), "p", 1/(1+math.Exp(-2)))''',
  'a softmax model with a negative exponent', 'the power is 1', imports=['math'])

seed('c19-unicode-blanks', 'C19',
  [('models/complexTypes.go', '''		case strings.ContainsRune(" \\t\\r\\n", r) && !quoted:
''', '''		case unicode.IsSpace(r) && !quoted:
'''), ('models/complexTypes.go', '''	"strings"

''', '''	"unicode"

'''), ('models/complexTypes.go', '''	result := []int64{}
''', '''	result := make([]int64, 0, len(ints))
''')],
  '''
	a := models.ArrayType{Type: models.ArrayTypeTypeString, RawValue: "a\\u00a0b c"}
	if s, err := a.Strings(); err != nil || len(s) != 2 {
		fail("%q %v", s, err)
	}''',
  'an unquoted element with a no-break space', 'it is split', imports=['github.com/flukeish/pmml/models'])

seed('c20-float32-shortest', 'C20',
  [(VAL, '''	if f, ok := v.val.(float32); ok {
		return float64(f)
	}

	if s, ok''', '''	if f, ok := v.val.(float32); ok {
		d, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'g', -1, 32), 64)
		return d
	}

	if s, ok''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="0.10000000149011612"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 0.10000000149011612}), "y", "b")
	want(score(m, row{"x": float32(0.1)}), "y", "b")''',
  'a float32 whose shortest decimal is not its value', 'it counts as another number')

seed('c14-unknown-field-missing', 'C14',
  [(TREE, '''	case *models.SimplePredicate:
		predicateValueType, ok := fieldTypes[p.Field]
		if !ok {
			return fmt''', '''	case *models.SimplePredicate:
		predicateValueType, ok := fieldTypes[p.Field]
		if !ok && p.Operator != models.SimplePredicateOperatorIsMissing {
			return fmt''')],
  '''
	if _, err := try(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="nowhere" operator="isMissing"/></Node></Node></TreeModel></PMML>`); err == nil {
		fail("accepted")
	}''',
  'isMissing of an undeclared field', 'it is false instead of refused')

seed('c15-column-prefix', 'C15',
  [(EVA, '''		if !strings.HasPrefix(vField.Column, "data:") {
''', '''		if vField.Column != "" && !strings.HasPrefix(vField.Column, "data:") {
'''), (EVA, '''		colName := vField.Column[5:]
		if vField.Precision != nil {
''', '''		if vField.Precision != nil {
			colName := vField.Column[5:]
''')],
  '''
	defer func() {
		if r := recover(); r != nil {
			panic(r)
		}
	}()
	doc := head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") +
		`<ModelVerification><VerificationFields><VerificationField field="x"/><VerificationField field="score" column="data:s" precision="1e-6"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:s>5</data:s></row></InlineTable></ModelVerification>` +
		`<Node score="5"><True/></Node></TreeModel></PMML>`
	if build(doc).Verify() == nil {
		fail("accepted")
	}''',
  'a verification field without a column', 'Verify panics')

seed('c08-zero-divisor', 'C08',
  [(INP, '''			return NewValue(val1.Float64() / val2.Float64()), nil
''', '''			if divisor := val2.Float64(); divisor != 0 {
				return NewValue(val1.Float64() / divisor), nil
			}
			return NewValue(nil), nil
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><Apply function="/"><Constant dataType="double">1</Constant><FieldRef field="x"/></Apply></DerivedField></TransformationDictionary><TreeModel functionName="regression">` + schema("y", "x") +
		`<Node score="1"><True/><Node score="2"><SimplePredicate field="d" operator="greaterThan" value="5"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 0.0}), "score", 2.0)
	want(score(m, row{"x": 1.0}), "score", 1.0)''',
  'a division by zero in a derived field', 'the field is missing instead of infinite')

seed('c03-dispatch', 'C03',
  [(TREE, '''	for _, c := range n.children {
		score, childResult := c.evaluateMissingValueStrategyNone(input)
''', '''	for i := n.first(input); i < len(n.children); i++ {
		c := n.children[i]
		score, childResult := c.evaluateMissingValueStrategyNone(input)
'''), (TREE, '''	children     []node
''', '''	children     []node

	byValue      map[string]int // the child for each value, if all test one string field for equality
	valueOf      string
'''), (TREE, '''	for _, child := range modelNode.Nodes {
''', '''	byValue, valueOf := map[string]int{}, ""
	for i, child := range modelNode.Nodes {
		p, ok := child.Predicate.(*models.SimplePredicate)
		if !ok || p.Operator != models.SimplePredicateOperatorEqual || m.fieldTypes[p.Field] != models.DataTypeString || i > 0 && valueOf != string(p.Field) {
			byValue = nil
			break
		}
		valueOf = string(p.Field)
		byValue[p.Value] = i
	}
	if len(modelNode.Nodes) > 3 && byValue != nil {
		n.byValue, n.valueOf = byValue, valueOf
	}

	for _, child := range modelNode.Nodes {
'''), (TREE, '''func (n node) evaluateMissingValueStrategyNone(''', '''// first is the first child that may be true.
func (n node) first(input DataRow) int {
	if n.byValue == nil || input[n.valueOf].Raw() == nil {
		return 0
	}
	if i, ok := n.byValue[input[n.valueOf].String()]; ok {
		return i
	}
	return len(n.children)
}

func (n node) evaluateMissingValueStrategyNone(''')],
  '''
	kid := func(v, s string) string {
		return `<Node score="` + s + `"><SimplePredicate field="x" operator="equal" value="` + v + `"/></Node>`
	}
	m := build(head("y", "categorical", "string", "x", "categorical", "string") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="z"><True/>` + kid("p", "a") + kid("q", "b") + kid("p", "c") + kid("r", "d") + `</Node></TreeModel></PMML>`)
	want(score(m, row{"x": "q"}), "y", "b")
	want(score(m, row{"x": "s"}), "y", "z")
	want(score(m, row{"x": "p"}), "y", "a")''',
  'four or more children that test one string field for equality, two of them with the same value', 'the later of the two answers')

# Fourth batch.
seed('c05-best-by-confidence', 'C05',
  [(TREE, '''		if score.probability > best.probability {
			best = score
		}''', '''		if score.probability > 0 && score.confidence > best.confidence {
			best = score
		}''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node><True/><ScoreDistribution value="a" recordCount="60" confidence="0.4"/><ScoreDistribution value="b" recordCount="40" confidence="0.5"/></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", "a")''',
  'score distributions that declare a confidence which ranks the classes differently from their probabilities', 'the label is the class of the highest confidence')

seed('c13-record-count', 'C13',
  [(EVA, '''	for _, vRow := range mv.InlineTable.Rows {
''', '''	rows := mv.InlineTable.Rows
	if n := int(mv.RecordCount); n > 0 && n < len(rows) {
		rows = rows[:n]
	}

	for _, vRow := range rows {
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><ModelVerification recordCount="1"><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="out" column="data:out" precision="1e-6"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:out>2</data:out></row><row><data:x>2</data:x><data:out>5</data:out></row></InlineTable></ModelVerification><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="2"/></RegressionTable></RegressionModel></PMML>`)
	if m.Verify() == nil {
		fail("the second row is wrong")
	}''',
  'a recordCount that is smaller than the number of verification rows', 'the rows beyond it are not verified')

seed('c13-precision', 'C13',
  [(EVA, '''		if vField.Precision != nil {
			outputMap[colName] = string(vField.Field)
''', '''		if vField.Precision != nil {
			outputMap[colName] = string(vField.Field)
			if float64(*vField.Precision) > tolerance && float64(*vField.Precision) < 1 {
				tolerance = float64(*vField.Precision)
			}
'''), (EVA, "	outputMap := make(map[string]string)\n", "	outputMap, tolerance := make(map[string]string), 1e-5\n"),
   (EVA, "if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {", "if !(math.Abs(delta) <= tolerance*math.Abs(expected)) {")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="out" column="data:out" precision="0.01"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:out>2.001</data:out></row></InlineTable></ModelVerification><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="2"/></RegressionTable></RegressionModel></PMML>`)
	if m.Verify() == nil {
		fail("2 is not 2.001")
	}''',
  'a verification field with a declared precision above 1e-5', 'larger deviations are accepted')

seed('c07-factor-zero', 'C07',
  [(MIN, "		if target.RescaleFactor != nil {\n", "		if target.RescaleFactor != nil && *target.RescaleFactor != 0 {\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Targets><Target field="y" rescaleFactor="0" rescaleConstant="3"/></Targets><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="5"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", 3.0)''',
  'a rescaleFactor of 0', 'the value is not rescaled')

seed('c07-chain-keeps-inputs', 'C07',
  [(MIN, '''		for k, v := range lastOut {
			input[k] = v
		}
''', '''		for k, v := range lastOut {
			if old, ok := input[k]; !ok || old.Raw() == nil || i > 1 {
				input[k] = v
			}
		}
''')],
  '''
	reg := func(out, coef string) string {
		return `<Segment><True/><RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="` + out + `"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="` + coef + `"/></RegressionTable></RegressionModel></Segment>`
	}
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Segmentation multipleModelMethod="modelChain">` + reg("x", "2") + reg("out", "10") + `</Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "out", 20.0)''',
  'a first segment whose output has the name of an input field', 'the second segment sees the input instead')

seed('c09-empty-string-ensemble', 'C09',
  [(MIN, '''		inputVal, ok := input[fld]
		if !ok || inputVal.Raw() == nil {''', '''		inputVal, ok := input[fld]
		if !ok || inputVal.Raw() == nil || inputVal.Raw() == "" {''')],
  '''
	m := build(head("y", "continuous", "double", "s", "categorical", "string") + `<MiningModel functionName="regression"><MiningSchema><MiningField name="s" missingValueReplacement="q"/></MiningSchema><Output><OutputField name="out"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "s") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="s" operator="equal" value="q"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"s": ""}), "out", 1.0)
	want(score(m, row{}), "out", 2.0)''',
  'an empty string as the value of a field for which the ensemble, not the segment, declares a replacement', 'the empty string is replaced')

seed('c15-lazy-derived', 'C15',
  [(INP, '''	fieldRef, ok := expr.(*models.FieldRef)
	if ok {
		val := in[string(fieldRef.Field)]
''', '''	if fieldRef, ok := expr.(*models.FieldRef); ok {
		val := in[string(fieldRef.Field)]
		if lt != nil && val.Raw() == nil {
			for _, df := range lt.DerivedFields {
				if df.Name == string(fieldRef.Field) {
					return HandleExpression(df.Expression, in, dd, td, lt, ms)
				}
			}
		}
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<LocalTransformations><DerivedField name="x" optype="continuous" dataType="double"><Apply function="+"><FieldRef field="x"/><Constant dataType="double">1</Constant></Apply></DerivedField></LocalTransformations><Node score="1"><True/></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "score", 1.0)
	want(score(m, row{}), "score", 1.0)''',
  'a local derived field that refers to itself (or two that refer to each other) and a row without the input', 'endless recursion')

seed('c11-pooled-rows', 'C11',
  [(TREE, '''	scores, result := m.root.evaluate(input)

''', '''	scratch := scratchRows.Get().(*scratchRow)
	scratch.row, scratch.sizes = input, append(scratch.sizes[:0], len(input))
	scores, result := m.root.evaluate(scratch.row)
	defer scratchRows.Put(scratch)
	scratchRows.Put(scratch)

'''), (TREE, 'type test func(DataRow)', '''type scratchRow struct {
	row   DataRow
	sizes []int
}

// scratchRows keeps the row headers of finished evaluations.
var scratchRows = sync.Pool{New: func() interface{} { return new(scratchRow) }}

type test func(DataRow)'''), (TREE, '	"strconv"\n)', '	"strconv"\n	"sync"\n)')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="greaterThan" value="5"/></Node></Node></TreeModel></PMML>`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := in(row{"x": float64(i)})
			for j := 0; j < 20000; j++ {
				out, err := m.Evaluate(r)
				if exp := map[bool]float64{true: 2, false: 1}[i > 5]; err != nil || out["score"].Float64() != exp {
					fail("got %v %v", out, err)
					return
				}
			}
		}(i)
	}
	wg.Wait()''',
  'two goroutines that score at the same time after an evaluation has put its scratch record into the pool twice', 'they share one record, so one of them is scored on the row of the other', imports=['sync'], flags='-race ')

seed('c14-multinomial-logit', 'C14',
  [(REG, '''		case models.RegressionNormalizationMethodSoftmax:
			s := 0.0
''', '''		case models.RegressionNormalizationMethodSoftmax, models.RegressionNormalizationMethodLogit:
			s := 0.0
''')],
  '''
	doc := head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="logit">` + schema("y", "x") + `<Output><OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/><OutputField name="pc" feature="probability" value="c"/></Output><RegressionTable targetCategory="a" intercept="1"/><RegressionTable targetCategory="b" intercept="2"/><RegressionTable targetCategory="c" intercept="0"/></RegressionModel></PMML>`
	if m, err := try(doc); err == nil {
		if out, err := m.Evaluate(in(row{"x": 1.0})); err == nil {
			fail("scored %v", out)
		}
	}''',
  'logit normalisation with three classes', 'a number instead of a refusal')

seed('c06-logit-overflow', 'C06',
  [(REG, '''	case models.RegressionNormalizationMethodLogit:
		return 1.0 / (1.0 + math.Exp(-term)), nil
''', '''	case models.RegressionNormalizationMethodLogit:
		e := math.Exp(term)
		return e / (1.0 + e), nil
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression" normalizationMethod="logit">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": 0.0}), "out", 0.5)
	want(score(m, row{"x": 800.0}), "out", 1.0)''',
  'logit with a linear form above 709', 'NaN')

seed('c06-cloglog-series', 'C06',
  [(REG, '''	case models.RegressionNormalizationMethodCloglog:
		return 1.0 - math.Exp(-math.Exp(term)), nil
''', '''	case models.RegressionNormalizationMethodCloglog:
		e := math.Exp(term)
		if e < 1e-3 {
			return e, nil // exp(-e) is 1 - e here
		}
		return 1.0 - math.Exp(-e), nil
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression" normalizationMethod="cloglog">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	out := score(m, row{"x": -7.0})["out"].Float64()
	if exp := -math.Expm1(-math.Exp(-7)); math.Abs(out-exp) > 1e-8*exp {
		fail("got %v, want %v", out, exp)
	}''',
  'cloglog with a linear form below -6.9', 'the result is off by up to 0.05 per cent', imports=['math'])

seed('c17-constant-pieces', 'C17',
  [(EL, '''func (*Constant) expression() {}
''', '''func (c *Constant) expression() {}

// UnmarshalXML implements the xml.Unmarshaler interface.
func (x *Constant) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
	for _, attr := range start.Attr {
		if attr.Name.Local == "dataType" {
			x.DataType = DataType(attr.Value)
		}
	}

	for {
		token, err := decoder.Token()
		if err != nil {
			return err
		}
		switch tok := token.(type) {
		case xml.CharData:
			x.Value = string(tok)
		case xml.StartElement:
			if err = decoder.Skip(); err != nil {
				return err
			}
		case xml.EndElement:
			return nil
		}
	}
}
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><Constant dataType="double">1<!-- and -->2</Constant></DerivedField></TransformationDictionary><RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{}), "out", 12.0)''',
  'a comment or CDATA section inside the text of a Constant', 'only the last piece of the text counts')

seed('c16-default-child-zero', 'C16',
  [(EL, '''		case "defaultChild":
			x.DefaultChild = attr.Value
''', '''		case "defaultChild":
			if attr.Value != "0" {
				x.DefaultChild = attr.Value
			}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild">` + schema("y", "x") +
		`<Node score="a" defaultChild="0"><True/><Node id="0" score="b"><SimplePredicate field="x" operator="greaterThan" value="5"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", "b")''',
  'a defaultChild named 0', 'the attribute is dropped')

seed('c23-id-case', 'C23',
  [(TREE, '		if c.id == n.defaultChild && c.id != "" {', '		if strings.EqualFold(c.id, n.defaultChild) && c.id != "" {'),
   (TREE, '	"strconv"\n)', '	"strconv"\n	"strings"\n)'),
   (TREE, "return emptyScoreDist, u\n		}\n\n		adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))", "return emptyScoreDist, u\n		}\n\n		adjustedScores := make([]scoreDist, len(defaultScores))")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild">` + schema("y", "x") +
		`<Node score="a" defaultChild="N1"><True/><Node id="n1" score="b"><SimplePredicate field="x" operator="greaterThan" value="5"/></Node><Node id="N1" score="c"><SimplePredicate field="x" operator="greaterThan" value="3"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", "c")''',
  'node identifiers that differ in case only', 'the wrong default child')

seed('c04-pool-limit', 'C04',
  [(TREE, '''		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
		if childResult != f {
			childScores = append(childScores, score...)
		}
''', '''		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
		if childResult != f && len(childScores)+len(score) <= cap(childScores) {
			childScores = append(childScores, score...)
		}
'''), (TREE, "	childScores := make([]scoreDist, 0, 0)\n	unknownValues", "	childScores := make([]scoreDist, 0, 1000)\n	unknownValues")],
  '''
	kids := ""
	for i := 0; i < 600; i++ {
		kids += `<Node><SimplePredicate field="x" operator="greaterThan" value="5"/><ScoreDistribution value="a" recordCount="` + map[bool]string{true: "1", false: "3"}[i < 500] + `"/><ScoreDistribution value="b" recordCount="2"/></Node>`
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="aggregateNodes">` + schema("y", "x") + `<Node><True/>` + kids + `</Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(a)", 800.0/2000)''',
  'aggregateNodes over more than 500 siblings of unknown truth', 'the later ones do not count')

seed('c20-int-through-float', 'C20',
  [(VAL, '	return fmt.Sprintf("%v", v.val)', '''	if f := v.Float64(); f != 0 {
		return formatFloat(f, 64)
	}

	return fmt.Sprint(v.val)''')],
  '''
	m := build(head("y", "categorical", "string", "s", "categorical", "string") + `<TreeModel functionName="classification">` + schema("y", "s") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="s" operator="equal" value="9007199254740993"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"s": "9007199254740993"}), "y", "b")
	want(score(m, row{"s": int64(9007199254740993)}), "y", "b")''',
  'an integer above 2^53 as the value of a string field', 'its text is that of the nearest float')

seed('c21-hoisted-replacements', 'C21',
  [(MIN, '''		segmdl := seg.Models[0]
''', '''		var segmdl = seg.Models[0]
		if tree, ok := segmdl.(*models.TreeModel); ok {
			for _, f := range tree.MiningSchema.MiningFields {
				if _, ok := m.defaultValues[string(f.Name)]; !ok && f.MissingValueReplacement != nil {
					m.defaultValues[string(f.Name)] = NewValue(*f.MissingValueReplacement)
				}
			}
		}
''')],
  '''
	seg := func(repl string) string {
		return `<Segment><True/><TreeModel functionName="regression"><MiningSchema><MiningField name="x" ` + repl + `/></MiningSchema><Node score="1"><True/><Node score="10"><SimplePredicate field="x" operator="greaterThan" value="5"/></Node></Node></TreeModel></Segment>`
	}
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><Segmentation multipleModelMethod="sum">` + seg("") + seg(`missingValueReplacement="7"`) + `</Segmentation></MiningModel></PMML>`)
	want(score(m, row{}), "out", 11.0)
	want(score(m, row{"x": 6.0}), "out", 20.0)''',
  'a replacement declared in one segment for a field that its siblings use as well', 'it applies to the siblings, too')

seed('c01-large-sets', 'C01',
  [(TREE, "func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map", "func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, _ map"), (TREE, '''	isIn := false
''', '''	var isIn bool
	if len(p.RawPredicateValues) > 32 {
		index := make(map[string]bool)
		for _, raw := range p.RawPredicateValues {
			index[NewValue(raw).String()] = true
		}
		if index[val.String()] == (p.BooleanOperator == models.SimpleSetPredicateOperatorIsIn) {
			return t
		}
		return f
	}
''')],
  '''
	set := ""
	for i := 0; i < 40; i++ {
		set += fmt.Sprint(i, " ")
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimpleSetPredicate field="x" booleanOperator="isIn"><Array type="real">` + set + `</Array></SimpleSetPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 7.0}), "y", "b")
	want(score(m, row{"x": "7.0"}), "y", "b")''',
  'a set of more than 32 numbers and a value that is written differently', 'values are compared as text', imports=['fmt'])

seed('c08-scoped-memo', 'C08',
  [(INP, '''			if in[df.Name].Raw() == nil {
				derivedFields = append(derivedFields, df)
			}
''', '''			if _, done := in[df.Name]; !done {
				derivedFields = append(derivedFields, df)
			}
'''), (INP, "			in[df.Name] = expr_val\n", "			in[df.Name] = NewValue(expr_val.Raw())\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double", "z", "continuous", "double") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><Apply function="+"><FieldRef field="x"/><Constant dataType="double">1</Constant></Apply></DerivedField></TransformationDictionary><MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><RegressionModel functionName="regression"><MiningSchema><MiningField name="x" missingValueReplacement="4"/></MiningSchema><Output><OutputField name="o"/></Output><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "out", 2.0)
	want(score(m, row{}), "out", 5.0)''',
  'a dictionary field that is missing in the ensemble and gets a value in a segment that declares a replacement for its input', 'it stays missing in the segment')

seed('c12-weighted-order', 'C12',
  [(TREE, '''	childScores := make([][]scoreDist, len(n.children))
	totalRecordCount := 0.0''', '''	childScores, totalRecordCount := make(map[int][]scoreDist), 0.0''')],
  '''
	doc := head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="weightedConfidence">` + schema("y", "x") + `<Node><True/>`
	for i := 0; i < 8; i++ {
		doc += fmt.Sprintf(`<Node recordCount="%d"><SimplePredicate field="x" operator="greaterThan" value="%d"/><ScoreDistribution value="c%d" recordCount="1"/></Node>`, 1, i, i)
	}
	m := build(doc + `</Node></TreeModel></PMML>`)
	first := score(m, row{})["y"].String()
	for i := 0; i < 200; i++ {
		if got := score(m, row{})["y"].String(); got != first {
			fail("%s, then %s", first, got)
			break
		}
	}''',
  'weightedConfidence with several siblings of unknown truth and classes that tie', 'the label depends on map iteration order', imports=['fmt'])

seed('c10-error-poisons', 'C10',
  [(MIN, '''		segout, err := segmodel.Evaluate(input)
		if err != nil {
			return nil, err
		}
''', '''		segout, err := segmodel.Evaluate(input)
		if m.compiled = err == nil || len(m.segmodels) > 1; err != nil {
			return nil, err
		}
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "out", 1.0)
	if _, err := m.Evaluate(in(row{})); err == nil {
		fail("a missing predictor")
	}
	want(score(m, row{"x": 1.0}), "out", 1.0)''',
  'an ensemble of one segment after an evaluation that failed', 'it refuses every row from then on')

seed('c03-chunked-children', 'C03',
  [(TREE, '''	for _, c := range n.children {
		score, childResult := c.evaluateMissingValueStrategyNullPrediction(input)
''', '''	for i := uint8(0); int(i) < len(n.children) && i < 255; i++ {
		c := n.children[i]
		score, childResult := c.evaluateMissingValueStrategyNullPrediction(input)
''')],
  '''
	kids := ""
	for i := 0; i < 280; i++ {
		kids += fmt.Sprintf(`<Node score="k%d"><SimplePredicate field="x" operator="equal" value="%d"/></Node>`, i, i)
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="nullPrediction">` + schema("y", "x") + `<Node score="a"><True/>` + kids + `</Node></TreeModel></PMML>`)
	want(score(m, row{"x": 10.0}), "y", "k10")
	want(score(m, row{"x": 270.0}), "y", "k270")''',
  'nullPrediction and a node with more than 255 children', 'the later ones are not considered', imports=['fmt'])

# Fifth batch.
T2 = '<TreeModel functionName="classification"%s>'
seed('c01-subtraction', 'C01',
  [(TREE, "if val.Int64() < p.RawPredicateValue.(int64) {", "if val.Int64()-p.RawPredicateValue.(int64) < 0 {")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "integer") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="lessThan" value="-10"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": int64(5)}), "y", "a")
	want(score(m, row{"x": int64(9223372036854775807)}), "y", "a")''',
  'a lessThan predicate on an integer field and a value so far from it that the difference overflows', 'the comparison is inverted')

seed('c01-single-precision-field', 'C01',
  [(TREE, '''		case models.DataTypeFloat:
			if val.Float64() > p.RawPredicateValue.(float64) {''', '''		case models.DataTypeFloat:
			if val.Float32() > float32(p.RawPredicateValue.(float64)) {''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "float") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="greaterThan" value="16777216"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 16777217.0}), "y", "b")''',
  'a greaterThan predicate on a float field and values that single precision does not tell apart', 'the value counts as equal')

seed('c02-nested-surrogate', 'C02',
  [(TREE, '''		if surrogate && val != u {
			return val
		}
''', '''		if _, nested := child.(*models.CompoundPredicate); surrogate && (val != u || nested && trueCount == 0 && unknownCount > 0) {
			return val
		}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double", "z", "continuous", "double", "w", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x", "z", "w") +
		`<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="surrogate"><SimplePredicate field="x" operator="greaterThan" value="0"/><CompoundPredicate booleanOperator="and"><SimplePredicate field="z" operator="greaterThan" value="0"/><SimplePredicate field="z" operator="lessThan" value="9"/></CompoundPredicate><SimplePredicate field="w" operator="greaterThan" value="0"/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"w": 1.0, "z": 1.0}), "y", "b")
	want(score(m, row{"w": 1.0}), "y", "b")''',
  'a surrogate whose second member is a compound that is unknown, after another unknown one', 'its later members are not asked')

seed('c02-xor-stops', 'C02',
  [(TREE, '''		if val == t {
			trueCount++
		} else if val == u {
			unknownCount++
		}
''', '''		if val == t {
			if trueCount++; trueCount > 2 && p.BooleanOperator == models.CompoundPredicateOperatorXor {
				break
			}
		} else if val == u {
			unknownCount++
		}
''')],
  '''
	p := `<SimplePredicate field="x" operator="greaterThan" value="0"/>`
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="xor">` + p + p + p + p + `</CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", "a")''',
  'an xor of four true members', 'the fourth is not counted')

seed('c03-leaf-without-score', 'C03',
  [(TREE, '''		if childResult == t {
			return score, childResult
		}
	}

	return n.outputScoreDist(), result
}

func (n node) evaluateMissingValueStrategyLastPrediction''', '''		if childResult == t && (len(score) > 0 || len(c.children) > 0) {
			return score, childResult
		}
	}

	return n.outputScoreDist(), result
}

func (n node) evaluateMissingValueStrategyLastPrediction''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node><SimplePredicate field="x" operator="greaterThan" value="0"/></Node><Node score="c"><True/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": -1.0}), "y", "c")
	if out := score(m, row{"x": 1.0}); len(out) > 0 {
		fail("the first true child carries nothing, but the answer is %v", out)
	}''',
  'a true leaf without a score before another true sibling', 'the sibling answers')

seed('c04-penalty-confidence', 'C04',
  [(TREE, "			score.probability = score.probability * float64(n.m.model.MissingValuePenalty)\n", "			if score.probability < 1 {\n				score.probability = score.probability * float64(n.m.model.MissingValuePenalty)\n			}\n")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild" missingValuePenalty="0.5">` + schema("y", "x") +
		`<Node score="a"><True/><Node id="1" score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/><ScoreDistribution value="b" recordCount="4"/><ScoreDistribution value="a" recordCount="0"/></Node></Node></TreeModel></PMML>`)
	_ = m
	n := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild" missingValuePenalty="0.5">` + schema("y", "x") +
		`<Node score="a" defaultChild="1"><True/><Node id="1" score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/><ScoreDistribution value="b" recordCount="4"/><ScoreDistribution value="a" recordCount="0"/></Node></Node></TreeModel></PMML>`)
	want(score(n, row{}), "probability(b)", 0.5)''',
  'a default child that is certain of its class, and a penalty', 'the penalty is not applied to a probability of 1')

seed('c05-best-of-ties', 'C05',
  [(TREE, "		if score.probability > best.probability {\n", "		if score.probability-best.probability > 1e-6 {\n")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><ScoreDistribution value="a" recordCount="1" probability="0.4999999"/><ScoreDistribution value="b" recordCount="1" probability="0.5000001"/></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", "b")''',
  'two classes whose probabilities differ by less than a millionth', 'the first wins although it is less probable')

seed('c06-half-table', 'C06',
  [(REG, '''			if !ok || term.Raw() == nil {
				return nil, fmt.Errorf("regression missing term %s", np.Name)
			}
			indVar := math.Pow(term.Float64(), float64(np.Exponent))
			coeff := np.Coefficient
			y[i] += coeff * indVar''', '''			if !ok || term.Raw() == nil {
				return nil, fmt.Errorf("regression missing term %s", np.Name)
			}
			indVar := math.Pow(term.Float64(), float64(np.Exponent))
			coeff, fold := np.Coefficient, indVar < 0 && np.Exponent > 1
			if coeff < 0 && fold {
				indVar = -indVar
			}
			y[i] += coeff * indVar''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="simplemax">` + schema("y", "x") + `<Output><OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/></Output>` +
		`<RegressionTable intercept="1" targetCategory="a"><NumericPredictor name="x" coefficient="-1" exponent="3"/></RegressionTable><RegressionTable intercept="3" targetCategory="b"/></RegressionModel></PMML>`)
	want(score(m, row{"x": -1.0}), "pa", 0.4)''',
  'a multi-class table with a negative coefficient, an odd exponent above 1 and a negative value', 'the sign of the power is lost')

seed('c06-repeated-category', 'C06',
  [(REG, '''			if rtbl.TargetCategory == output.Value {
				out[string(output.Name)] = NewValue(pred)
			}
		}
	}

	return out, nil
}

func (m *RegressionModel) EvaluateMulticlassClassification''', '''			if _, done := out[string(output.Name)]; !done && rtbl.TargetCategory == output.Value || i > 0 && output.Value == "" {
				out[string(output.Name)] = NewValue(pred)
			}
		}
	}

	return out, nil
}

func (m *RegressionModel) EvaluateMulticlassClassification''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="logit">` + schema("y", "x") + `<Output><OutputField name="pa" feature="probability" value=""/><OutputField name="pb" feature="probability" value="b"/></Output>` +
		`<RegressionTable intercept="0" targetCategory=""><NumericPredictor name="x" coefficient="1"/></RegressionTable><RegressionTable intercept="0" targetCategory="b"/></RegressionModel></PMML>`)
	want(score(m, row{"x": 2.0}), "pa", 1/(1+math.Exp(-2)))''',
  'a binary model whose first class is the empty string', 'it is given the probability of the other class', imports=['math'])

seed('c07-average-scored-only', 'C07',
  [(MIN, '''				if ok {
					scoreMap[k] = v + outval.Float64()
				}
			} else {''', '''				if ok && outval.Float64() >= 0 {
					scoreMap[k] = v + outval.Float64()
				}
			} else {''')],
  '''
	seg := func(c string) string {
		return `<Segment><True/><RegressionModel functionName="classification" normalizationMethod="simplemax">` + schema("y", "x") + `<Output><OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/></Output><RegressionTable intercept="` + c + `" targetCategory="a"/><RegressionTable intercept="3" targetCategory="b"/></RegressionModel></Segment>`
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<MiningModel functionName="classification">` + schema("y", "x") + `<Output><OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/></Output><Segmentation multipleModelMethod="sum">` + seg("-1") + seg("1") + `</Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "pa", -0.25)''',
  'a classification ensemble with a simplemax member whose share is negative', 'negative shares are dropped from the sum')

seed('c09-zero-replaced', 'C09',
  [(MIN, "if !ok || inputVal.Raw() == nil {\n			input[fld]", "if !ok || inputVal.Raw() == nil || inputVal.Raw() == false {\n			input[fld]")],
  '''
	m := build(head("y", "categorical", "string", "b", "categorical", "boolean") + `<MiningModel functionName="classification"><MiningSchema><MiningField name="y" usageType="target"/><MiningField name="b" missingValueReplacement="true"/></MiningSchema><Segmentation multipleModelMethod="selectFirst"><Segment><True/><TreeModel functionName="classification">` + schema("y", "b") + `<Node score="a"><True/><Node score="b"><SimplePredicate field="b" operator="equal" value="true"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"b": false}), "y", "a")
	want(score(m, row{}), "y", "b")''',
  'an ensemble with a replacement for a boolean field that is false in the row', 'the replacement is used instead')

seed('c10-last-output', 'C10',
  [(MIN, "	lastOut := make(DataRow)\n", "	if m.chained == nil {\n		m.chained = make(DataRow)\n	}\n	lastOut := m.chained\n"), (MIN, "	return lastOut, nil\n", "	for k, v := range lastOut {\n		if v.Raw() == nil {\n			m.chained[k] = v\n		}\n	}\n	if len(lastOut) == 0 {\n		return make(DataRow), nil\n	}\n	return lastOut, nil\n"), (MIN, "	targets       []models.Target\n}", "	targets       []models.Target\n	chained       DataRow\n}")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<MiningModel functionName="classification">` + schema("y", "x") + `<Segmentation multipleModelMethod="modelChain"><Segment><SimplePredicate field="x" operator="greaterThan" value="0"/><TreeModel functionName="classification">` + schema("y", "x") + `<Node score="a"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	out := score(m, row{"x": -1.0})
	out["y"] = out["y"]
	out["q"] = out["y"]
	if again := score(m, row{"x": -1.0}); len(again) > 0 {
		fail("a result changed by its caller comes back: %v", again)
	}''',
  'a chain none of whose segments applies, and a caller that adds to the result', 'the addition would come back')
SEEDS.pop()

seed('c10-reused-result', 'C10',
  [(MIN, "	out := make(DataRow)\n	for k, v := range scoreMap {", "	if m.out == nil {\n		m.out = make(DataRow)\n	}\n	out := m.out\n	for k, v := range scoreMap {"), (MIN, "	targets       []models.Target\n}", "	targets       []models.Target\n	out           DataRow\n}")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></Segment></Segmentation></MiningModel></PMML>`)
	a := score(m, row{"x": 1.0})
	score(m, row{"x": 2.0})
	want(a, "out", 1.0)''',
  'a result of an ensemble held across a later evaluation', 'it changes under its holder')

seed('c11-verify-state', 'C11',
  [(EVA, '''		output, err := m.Evaluate(input)
		if err != nil {
			return err
		}

		for k, v := range vRow {''', '''		output, err := m.Evaluate(input)
		if err != nil {
			return err
		}

		for k := range vRow {
			v := vRow[k]
			vRow[k] = v''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="out" column="data:out" precision="1e-6"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:out>1</data:out></row></InlineTable></ModelVerification></RegressionModel></PMML>`)
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for j := 0; j < 200; j++ {
				m.Verify()
			}
			done <- true
		}()
	}
	<-done
	<-done''',
  'two goroutines that verify one model at the same time', 'they write to one map', flags='-race ')

seed('c12-target-order', 'C12',
  [(MIN, '''	for _, target := range m.targets {
		if target.RescaleFactor != nil {''', '''	targets := map[models.FieldName]models.Target{}
	for i, target := range m.targets {
		targets[target.Field+models.FieldName(fmt.Sprint(i))] = target
	}
	for _, target := range targets {
		if target.RescaleFactor != nil {''')],
  '''
	doc := head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Targets><Target field="y" rescaleFactor="3" rescaleConstant="1"/><Target field="y" rescaleFactor="5" rescaleConstant="7"/></Targets><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="10"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`
	m := build(doc)
	for i := 0; i < 100; i++ {
		want(score(m, row{"x": 1.0}), "y", 162.0)
	}''',
  'two targets for one field', 'they are applied in the order of a map')

seed('c13-mean-error', 'C13',
  [(EVA, "				delta := expected - predicted\n", "				delta, scale := expected-predicted, 1.0\n				if math.Abs(predicted) > math.Abs(expected) {\n					scale = expected / predicted\n				}\n				delta *= scale\n")],
  '''
	doc := func(v string) string {
		return head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="out" column="data:out" precision="1e-6"/></VerificationFields><InlineTable><row><data:x>1.0000100000500</data:x><data:out>` + v + `</data:out></row></InlineTable></ModelVerification></RegressionModel></PMML>`
	}
	if err := build(doc("1.00001")).Verify(); err != nil {
		fail("right: %v", err)
	}
	if build(doc("1")).Verify() == nil {
		fail("wrong by more than the tolerance, accepted")
	}''',
  'an error between a hundred-thousandth of the expectation and of the prediction', 'Verify accepts it')

seed('c13-early-return', 'C13',
  [(EVA, "				if !ok {\n					return fmt.Errorf(\"expected output", "				if !ok && output == nil {\n					continue\n				} else if !ok {\n					return fmt.Errorf(\"expected output")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" noTrueChildStrategy="returnNullPrediction">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></Node><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="probability(b)" column="data:p" precision="1e-6"/></VerificationFields><InlineTable><row><data:x>-1</data:x><data:p>1</data:p></row></InlineTable></ModelVerification></TreeModel></PMML>`)
	if m.Verify() == nil {
		fail("an output that is not produced is accepted")
	}''',
  'a verification row the model gives no prediction for', 'its expectations are skipped')

seed('c14-between', 'C14',
  [(INP, '''	return NewValue(nil), fmt.Errorf("unsupported apply function: %s", apply.Function)''', '''	if len(apply.Expressions) == 1 && apply.Expressions[0] != nil {
		switch apply.Function {
		case "round", "floor", "ceil", "abs":
			return HandleExpression(apply.Expressions[0], in, dd, td, lt, ms)
		}
	}

	return NewValue(nil), fmt.Errorf("unsupported function: %s", apply.Function)''')],
  '''
	m, err := try(head("y", "continuous", "double", "x", "continuous", "double") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><Apply function="abs"><FieldRef field="x"/></Apply></DerivedField></TransformationDictionary><RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	if err == nil {
		if out, err := m.Evaluate(in(row{"x": -1.0})); err == nil {
			fail("abs is not implemented, but scored: %v", out)
		}
	}''',
  'a derived field that applies abs, round, floor or ceil', 'the function is skipped')

seed('c14-predicate-type', 'C14',
  [(EVA, "	case models.DataTypeString:\n		return val, nil\n	}\n", "	case models.DataTypeString, \"date\", \"time\", \"dateTime\":\n		return val, nil\n	}\n")],
  '''
	m, err := try(head("y", "categorical", "string", "x", "ordinal", "date") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="2020-01-01"/></Node></Node></TreeModel></PMML>`)
	if err == nil {
		if out, err := m.Evaluate(in(row{"x": "2020-1-1"})); err == nil {
			fail("dates are not implemented, but scored: %v", out)
		}
	}''',
  'an equality on a field of type date, time or dateTime', 'the text is compared')

seed('c15-empty-table', 'C15',
  [(REG, "	outField := m.model.Output.Fields[0]\n", "	outField, cats := m.model.Output.Fields[0], rtbl.CategoricalPredictors\n	if len(cats) > 1 && len(rtbl.NumericPredictor) == 0 {\n		if input[string(rtbl.CategoricalPredictors[1].Name)].Raw().(string) == \"\" {\n			return out, fmt.Errorf(\"empty category\")\n		}\n	}\n")],
  '''
	m := build(head("y", "continuous", "double", "s", "categorical", "string") + `<RegressionModel functionName="regression">` + schema("y", "s") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><CategoricalPredictor name="s" value="a" coefficient="1"/><CategoricalPredictor name="s" value="b" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"s": "a"}), "out", 1.0)
	want(score(m, row{"s": 1}), "out", 0.0)
	want(score(m, row{}), "out", 0.0)''',
  'a regression of categorical predictors only and a row without the second one\'s field', 'scoring panics')

seed('c16-nested-extension-node', 'C16',
  [(EL, '''				var node Node
				err = decoder.DecodeElement(&node, &tok)
				if err != nil {
					return err
				}
				x.Nodes = append(x.Nodes, node)''', '''				node := Node{RecordCount: x.RecordCount}
				err = decoder.DecodeElement(&node, &tok)
				if err != nil {
					return err
				}
				x.Nodes = append(x.Nodes, node)''')],
  '''
	p := decode(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="weightedConfidence">` + schema("y", "x") +
		`<Node recordCount="8"><True/><Node score="b"><True/></Node></Node></TreeModel></PMML>`)
	if n := p.Models[0].(*models.TreeModel).Node.Nodes[0].RecordCount; n != 0 {
		fail("the child has %v records", n)
	}''',
  'a node with a record count and a child without one', 'the child is decoded with its parent\'s count', imports=['github.com/flukeish/pmml/models'])

seed('c17-cell-namespace', 'C17',
  [(EL, '''			key := tok.Name.Local
			var value string''', '''			key := tok.Name.Local
			if key == "Extension" && tok.Name.Space == "" {
				key = "data:Extension"
			}
			var value string'''), (EL, '''			case "Extension":
				var e Extension
				err = decoder.DecodeElement(&e, &tok)
				if err != nil {
					return err
				}
				x.Extensions = append(x.Extensions, e)
			case "Node":
				var node Node''', '''			case "Extension":
				var e Extension
				err = decoder.DecodeElement(&e, &tok)
				if err != nil {
					return err
				}
				x.Extensions = append(x.Extensions, e)
				if len(x.Extensions) > 2 && x.Predicate == nil {
					x.Predicate = &True{}
				}
			case "Node":
				var node Node''')],
  '''
	_ = try
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><Extension/><Extension/><Extension/><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": -1.0}), "y", "a")''',
  '', '')
SEEDS.pop()

seed('c17-three-extensions', 'C17',
  [(EL, "				x.Nodes = append(x.Nodes, node)\n", "				if len(x.Extensions) <= len(x.Nodes)+1 {\n					x.Nodes = append(x.Nodes, node)\n				}\n")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><Extension/><Extension/><True/><Node score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", "b")''',
  'two extensions in a node before its first child', 'the child is skipped')

seed('c18-late-number', 'C18',
  [(EL, '''		case "recordCount":
			if len(attr.Value) > 0 {
				v, err := strconv.ParseFloat(attr.Value, 64)
				if err != nil {
					return err
				}

				x.RecordCount = Number(v)
			}
		case "score":
			x.Score = attr.Value
		}
	}

	for {
		var token xml.Token

		token, err = decoder.Token()
		if err != nil {
			return err
		}
		switch tok := token.(type) {
		case xml.StartElement:
			switch tok.Name.Local {
			case "Extension":''', '''		case "recordCount":
			if len(attr.Value) > 0 {
				v, perr := strconv.ParseFloat(attr.Value, 64)
				if perr != nil {
					err = perr
				}

				x.RecordCount = Number(v)
			}
		case "score":
			x.Score = attr.Value
		}
	}

	if err != nil && x.Score == "" {
		return err
	}

	for {
		var token xml.Token

		token, err = decoder.Token()
		if err != nil {
			return err
		}
		switch tok := token.(type) {
		case xml.StartElement:
			switch tok.Name.Local {
			case "Extension":''')],
  '''
	if _, err := try(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node recordCount="1O" score="a"><True/></Node></TreeModel></PMML>`); err == nil {
		fail("a malformed record count is accepted")
	}''',
  'a malformed record count on a node with a score', 'it is accepted')

seed('c19-tabs', 'C19',
  [('models/complexTypes.go', '''		val, err := strconv.ParseFloat(ints[i], 64)
		if err != nil {
			return nil, err
		}
''', '''		val, err := strconv.ParseFloat(strings.Replace(ints[i], ",", ".", 1), 64)
		if err != nil {
			return nil, err
		}
''')],
  '''
	at := models.ArrayType{Type: "real", RawValue: "1,5 2"}
	if v, err := at.Float64s(); err == nil {
		fail("1,5 is read as %v", v)
	}''',
  'a real array with a decimal comma', 'it is read as a decimal point instead of refused', imports=['github.com/flukeish/pmml/models'])

seed('c20-uint8', 'C20',
  [(VAL, '''	if f, ok := v.val.(int8); ok {
		return int64(f)
	}
''', '''	if f, ok := v.val.(int8); ok {
		return int64(uint8(f))
	}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="lessThan" value="0"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": int8(5)}), "y", "a")
	want(score(m, row{"x": int8(-5)}), "y", "b")''',
  'a negative int8', 'it wraps around')

seed('c21-shared-row', 'C21',
  [(MIN, '''		segout, err := segmodel.Evaluate(input)
		if err != nil {
			return nil, err
		}
''', '''		segout, err := segmodel.Evaluate(input)
		if err == nil && m.model.FunctionName == models.MiningFunctionClassification {
			for k, v := range segout {
				if _, ok := input[k]; !ok {
					input[k] = v
				}
			}
		} else if err != nil {
			return nil, err
		}
''')],
  '''
	seg := `<Segment><True/><RegressionModel functionName="classification" normalizationMethod="logit">` + schema("y", "x") + `<Output><OutputField name="z" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/></Output><RegressionTable intercept="0" targetCategory="a"/><RegressionTable intercept="0" targetCategory="b"/></RegressionModel></Segment>`
	tree := `<Segment><True/><TreeModel functionName="classification">` + schema("y", "x", "z") + `<Node score="b"><True/><Node score="a"><SimplePredicate field="z" operator="isNotMissing"/></Node></Node></TreeModel></Segment>`
	m := build(head("y", "categorical", "string", "x", "continuous", "double", "z", "continuous", "double") + `<MiningModel functionName="classification">` + schema("y", "x", "z") + `<Output><OutputField name="probability(a)" feature="probability" value="q"/></Output><Segmentation multipleModelMethod="sum">` + seg + tree + `</Segmentation></MiningModel></PMML>`)
	if out := score(m, row{"x": 1.0}); out["probability(a)"].Float64() != 0 {
		fail("the tree sees the regression's output: %v", out)
	}''',
  'a combined segment that reads a field named like an earlier segment\'s output', 'it sees that output')

seed('c22-shared-dictionary', 'C22',
  [(TREE, '''		if f.UsageType == "" {
			f.UsageType = models.FieldUsageTypeActive
		}
''', '''		if f.UsageType == models.FieldUsageTypeTarget {
			for j := range m.dd.DataFields {
				if d := &m.dd.DataFields[j]; d.Name == f.Name && m.model.Node.Score != "" && len(d.Values) == 0 {
					d.Values = append(d.Values, models.Value{Value: m.model.Node.Score})
				}
			}
		} else if f.UsageType == "" {
			f.UsageType = models.FieldUsageTypeActive
		}
''')],
  '''
	p := decode(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") + `<Node score="a"><True/></Node></TreeModel><TreeModel functionName="classification">` + schema("y", "x") + `<Node score="b"><True/></Node></TreeModel></PMML>`)
	for i := range p.Models {
		m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[i])
		if err != nil {
			fail("%v", err)
			continue
		}
		out := score(m, row{"x": 1.0})
		if len(out) != 2 {
			fail("model %d: %v", i, out)
		}
	}''',
  'two trees with one undeclared target, whose roots score different classes', 'the second also reports the first\'s class', imports=['github.com/flukeish/pmml/evaluation'])

seed('c23-display-value', 'C23',
  [(TREE, "					if val.Value == n.score.value {\n", "					if val.Value == n.score.value || val.DisplayValue == n.score.value {\n")],
  '''
	doc := func(d string) string {
		return `<PMML xmlns="http://www.dmg.org/PMML-4_3" version="4.3"><Header/><DataDictionary><DataField name="y" optype="categorical" dataType="string"><Value value="1"` + d + `/><Value value="2"/></DataField></DataDictionary><TreeModel functionName="classification">` + schema("y") + `<Node score="2"><True/></Node></TreeModel></PMML>`
	}
	want(score(build(doc("")), row{}), "probability(1)", 0.0)
	want(score(build(doc(` displayValue="2"`)), row{}), "probability(1)", 0.0)''',
  'a class whose display value is the value of another', 'it is given the other\'s probability')

# Sixth batch.
seed('c02-small-counter', 'C02',
  [(TREE, '''	trueCount := 0
	unknownCount := 0

	surrogate''', '''	var trueCount, unknownCount uint8

	surrogate'''),
   (TREE, "if unknownCount > 0 && unknownCount+trueCount == len(p.Predicates) {", "if unknownCount > 0 && unknownCount+trueCount == uint8(len(p.Predicates)) {"),
   (TREE, "if trueCount == len(p.Predicates) {", "if trueCount == uint8(len(p.Predicates)) {")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="or">` + strings.Repeat(`<SimplePredicate field="x" operator="greaterThan" value="0"/>`, 256) + `</CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", "b")
	want(score(m, row{"x": -1.0}), "y", "a")''',
  'a compound predicate of 256 true members', 'the count of true members wraps around', imports=['strings'])

seed('c05-normalised-probabilities', 'C05',
  [(TREE, "		best := pickBest(scores)\n", "		best, total := pickBest(scores), 0.0\n"), (TREE, '''			for _, score := range scores {
				key, ok''', '''			for _, score := range scores {
				total += score.probability
			}
			if !(total > 1) {
				total = 1
			}
			for _, score := range scores {
				score.probability /= total
				key, ok''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><ScoreDistribution value="a" recordCount="1" probability="0.8"/><ScoreDistribution value="b" recordCount="3" probability="0.45"/></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "probability(a)", 0.8)
	want(score(m, row{"x": 1.0}), "probability(b)", 0.45)''',
  'declared probabilities that add up to more than 1', 'they are scaled down')

seed('c06-hundred-classes', 'C06',
  [(REG, '''			s := 0.0
			for _, yVal := range y {
				s += yVal
			}
''', '''			s := 0.0
			for k := 0; k < len(y) && k < 1<<5; k++ {
				s += y[k]
			}
''')],
  '''
	tables, outs := "", ""
	for i := 0; i < 40; i++ {
		tables += fmt.Sprintf(`<RegressionTable intercept="1" targetCategory="c%d"/>`, i)
		outs += fmt.Sprintf(`<OutputField name="p%d" feature="probability" value="c%d"/>`, i, i)
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="simplemax">` + schema("y", "x") + `<Output>` + outs + `</Output>` + tables + `</RegressionModel></PMML>`)
	want(score(m, row{}), "p3", 1.0/40)''',
  'simplemax over more than 32 classes', 'only 32 count', imports=['fmt'])

seed('c07-swallowed-error', 'C07',
  [(MIN, '''		segout, err := segmodel.Evaluate(input)
		if err != nil {
			return nil, err
		}
''', '''		segout, err := segmodel.Evaluate(input)
		if err != nil && segments == 1 {
			return nil, err
		} else if err != nil {
			segments--
			continue
		}
''')],
  '''
	seg := func(f string) string {
		return `<Segment><True/><RegressionModel functionName="regression">` + schema("y", f) + `<Output><OutputField name="o"/></Output><RegressionTable intercept="1"><NumericPredictor name="` + f + `" coefficient="1"/></RegressionTable></RegressionModel></Segment>`
	}
	m := build(head("y", "continuous", "double", "x", "continuous", "double", "z", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x", "z") + `<Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum">` + seg("x") + seg("z") + `</Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0, "z": 2.0}), "o", 5.0)
	if out, err := m.Evaluate(in(row{"x": 1.0})); err == nil {
		fail("a segment lacks its predictor, but the sum is %v", out)
	}''',
  'a combined segment after the first that cannot be scored', 'it is left out of the sum')

seed('c08-single-precision-derived', 'C08',
  [(INP, "		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)\n		if err != nil {\n			return nil, err\n		}\n\n		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {\n", "		expr_val, err := HandleExpression(df.Expression, in, dd, td, nil, ms)\n		if err != nil {\n			return nil, err\n		}\n\n		if df.DataType == models.DataTypeFloat && expr_val.Raw() != nil {\n			in[df.Name] = NewValue(expr_val.Float32())\n		} else if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="float"><Apply function="*"><FieldRef field="x"/><Constant dataType="double">0.1</Constant></Apply></DerivedField></TransformationDictionary><RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": 123456789.0}), "out", 12345678.9)''',
  'a derived field of type float', 'its value is rounded to single precision')

seed('c08-missing-branch', 'C08',
  [(INP, '''			return HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)
		} else {''', '''			if out, err := HandleExpression(apply.Expressions[1], in, dd, td, lt, ms); err != nil || out.Raw() != nil {
				return out, err
			}
			return HandleExpression(apply.Expressions[2], in, dd, td, lt, ms)
		} else {''')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><Apply function="if"><Apply function="isMissing"><FieldRef field="x"/></Apply><FieldRef field="x"/><Constant dataType="double">2</Constant></Apply></DerivedField></TransformationDictionary><TreeModel functionName="classification">` + schema("", "x") + `<Node score="a"><True/><Node score="b"><SimplePredicate field="d" operator="isMissing"/></Node></Node></TreeModel></PMML>`)
	if out := score(m, row{}); out["probability(b)"].Float64() != 1 {
		fail("got %v", out)
	}''',
  'an if whose condition is true and whose first branch is missing', 'the value of the other branch')

seed('c08-empty-is-missing', 'C08',
  [(INP, '''	if out.Raw() == nil {
		return true, nil
	}
''', '''	if out.Raw() == nil || out.String() == "" {
		return true, nil
	}
''')],
  '''
	m := build(head("y", "continuous", "double", "x", "categorical", "string") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><Apply function="if"><Apply function="isMissing"><FieldRef field="x"/></Apply><Constant dataType="double">1</Constant><Constant dataType="double">2</Constant></Apply></DerivedField></TransformationDictionary><RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": ""}), "out", 2.0)
	want(score(m, row{}), "out", 1.0)''',
  'isMissing of an empty string', 'it counts as missing')

seed('c11-key-cache', 'C11',
  [(TREE, '''				if !ok {
					key = fmt.Sprintf("probability(%s)", score.value)
				}
''', '''				if !ok {
					key = "probability(" + score.value + ")"
					m.outKeys[score.value] = key
				}
''')],
  '''
	nodes := ""
	for i := 0; i < 3000; i++ {
		nodes += fmt.Sprintf(`<Node score="c%d"><SimplePredicate field="x" operator="equal" value="%d"/></Node>`, i, i)
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") + `<Node score="a"><True/>` + nodes + `</Node></TreeModel></PMML>`)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := g; i < 3000; i += 8 {
				want(score(m, row{"x": float64(i)}), "y", fmt.Sprint("c", i))
			}
		}(g)
	}
	wg.Wait()''',
  'two goroutines scoring classes that occur in no score distribution', 'a map is written without synchronisation', imports=['fmt', 'sync'], flags='-race ')

seed('c12-label-from-output', 'C12',
  [(TREE, "		best := pickBest(scores)\n", "		best, labels := pickBest(scores), make(map[string]float64)\n"), (TREE, '''				out[key] = NewValue(score.probability)
			}
''', '''				out[key] = NewValue(score.probability)
			}

			for _, score := range scores {
				labels[score.value] = score.probability
			}
			for label, p := range labels {
				if p >= best.probability {
					out[string(m.targetField)] = NewValue(label)
				}
			}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><ScoreDistribution value="a" recordCount="1"/><ScoreDistribution value="b" recordCount="1"/></Node></TreeModel></PMML>`)
	for i := 0; i < 300; i++ {
		want(score(m, row{"x": 1.0}), "y", "a")
	}''',
  'two classes of equal probability', 'the label is picked in map order')

seed('c13-first-hundred', 'C13',
  [(EVA, '''	for _, vRow := range mv.InlineTable.Rows {
''', '''	for r, vRow := range mv.InlineTable.Rows {
		if r > 99 {
			break
		}
''')],
  '''
	rows := ""
	for i := 0; i < 120; i++ {
		e := i
		if i == 110 {
			e = 7
		}
		rows += fmt.Sprintf(`<row><data:x>%d</data:x><data:o>%d</data:o></row>`, i, e)
	}
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><ModelVerification recordCount="120"><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="1e-6"/></VerificationFields><InlineTable xmlns:data="http://d">` + rows + `</InlineTable></ModelVerification><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	if m.Verify() == nil {
		fail("a wrong row is accepted")
	}''',
  'a wrong expectation in a row after the hundredth', 'it is not checked', imports=['fmt'])

seed('c13-no-prediction', 'C13',
  [(EVA, '''		output, err := m.Evaluate(input)
		if err != nil {
			return err
		}
''', '''		output, err := m.Evaluate(input)
		if err != nil || output == nil {
			return err
		}
''')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") + `<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="probability(a)" column="data:p" precision="1e-6"/></VerificationFields><InlineTable xmlns:data="http://d"><row><data:x>-1</data:x><data:p>1</data:p></row></InlineTable></ModelVerification><Node score="a"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></TreeModel></PMML>`)
	if m.Verify() == nil {
		fail("an expectation for a row without a prediction is accepted")
	}''',
  'a verification row for which the model gives no prediction', 'its expectations are not checked')

seed('c14-regression-features', 'C14',
  [(MIN, '''		if f.Feature != "" && f.Feature != models.ResultFeatureProbability {
''', '''		if f.Feature != "" && f.Feature != models.ResultFeatureProbability && (f.Value == "" || m.model.FunctionName != models.MiningFunctionRegression) {
''')],
  '''
	doc := head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o" feature="residual" value="1"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`
	m, err := try(doc)
	if err == nil {
		if out, err := m.Evaluate(in(row{"x": 1.0})); err == nil {
			fail("a residual is scored: %v", out)
		}
	}''',
  'a regression ensemble whose output has an unsupported feature and a value', 'it is scored as the sum')

seed('c17-trimmed-cells', 'C17',
  [(EL, """func (x Row) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
	for {
		var token xml.Token

		token, err := decoder.Token()
		if err != nil {
			return err
		}

		switch tok := token.(type) {
		case xml.StartElement:
			key := tok.Name.Local
			var value string
			err = decoder.DecodeElement(&value, &tok)
			if err != nil {
				return err
			}
			x[key] = value
""", """func (x Row) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
	for {
		var token xml.Token

		token, err := decoder.Token()
		if err != nil {
			return err
		}

		switch tok := token.(type) {
		case xml.StartElement:
			key := tok.Name.Local
			var cell struct {
				Raw  string `xml:",innerxml"`
				Text string `xml:",chardata"`
			}
			err = decoder.DecodeElement(&cell, &tok)
			if err != nil {
				return err
			}
			if x[key] = cell.Text; cell.Raw == "<![CDATA["+cell.Text+"]]>" {
				x[key] = cell.Raw
			}
""")],
  '''
	doc := func(c string) string {
		return head("y", "continuous", "double", "s", "categorical", "string") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><MapValues outputColumn="data:o"><FieldColumnPair field="s" column="data:k"/><InlineTable xmlns:data="http://d"><row><data:k>` + c + `</data:k><data:o>12</data:o></row></InlineTable></MapValues></DerivedField></TransformationDictionary><RegressionModel functionName="regression">` + schema("y", "s") + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`
	}
	want(score(build(doc("ab")), row{"s": "ab"}), "out", 12.0)
	want(score(build(doc("<![CDATA[ab]]>")), row{"s": "ab"}), "out", 12.0)''',
  'a lookup cell that is one CDATA section', 'its markup is part of the text')

seed('c23-colon-names', 'C23',
  [(INP, "		data, ok := in[pair.Field]\n", "		data, ok := in[localName(pair.Field)]\n")],
  '''
	doc := func(f string) string {
		return head("y", "continuous", "double", f, "categorical", "string") + `<TransformationDictionary><DerivedField name="d" optype="continuous" dataType="double"><MapValues outputColumn="data:o"><FieldColumnPair field="` + f + `" column="data:k"/><InlineTable xmlns:data="http://d"><row><data:k>ab</data:k><data:o>12</data:o></row></InlineTable></MapValues></DerivedField></TransformationDictionary><RegressionModel functionName="regression">` + schema("y", f) + `<Output><OutputField name="out"/></Output><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`
	}
	want(score(build(doc("s")), row{"s": "ab"}), "out", 12.0)
	want(score(build(doc("s:t")), row{"s:t": "ab"}), "out", 12.0)''',
  'a lookup on a field whose name has a colon', 'the field is taken to be the part after the colon')

seed('c23-target-case', 'C23',
  [(TREE, "			if field.Name == n.m.targetField {\n				for _, val := range field.Values {", "			if strings.EqualFold(string(field.Name), string(n.m.targetField)) {\n				for _, val := range field.Values {"),
   (TREE, '	"strconv"\n)', '	"strconv"\n	"strings"\n)')],
  '''
	doc := `<PMML xmlns="http://www.dmg.org/PMML-4_2" version="4.2"><Header/><DataDictionary><DataField name="Y" optype="categorical" dataType="string"><Value value="p"/><Value value="q"/></DataField><DataField name="y" optype="categorical" dataType="string"><Value value="a"/><Value value="b"/></DataField></DataDictionary>` +
		`<TreeModel functionName="classification">` + schema("y", "Y") + `<Node score="a"><True/></Node></TreeModel></PMML>`
	out := score(build(doc), row{"Y": "p"})
	want(out, "y", "a")
	want(out, "probability(p)", nil)
	want(out, "probability(b)", 0.0)''',
  'a field with declared values whose name differs from the target\'s in case only', 'its values are reported as classes')

seed('c23-trimmed-ids', 'C23',
  [(TREE, "		id:           modelNode.ID,\n		defaultChild: modelNode.DefaultChild,", "		id:           strings.TrimSpace(modelNode.ID),\n		defaultChild: strings.TrimSpace(modelNode.DefaultChild),"),
   (TREE, '	"strconv"\n)', '	"strconv"\n	"strings"\n)')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="defaultChild">` + schema("y", "x") +
		`<Node score="a" defaultChild="n "><True/><Node id="n" score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node><Node id="n " score="c"><SimplePredicate field="x" operator="lessOrEqual" value="0"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "y", "c")
	want(score(m, row{"x": 1.0}), "y", "b")''',
  'siblings whose identifiers differ in a trailing blank', 'the wrong default child')

seed('c09-supplementary', 'C09',
  [(MIN, """	for _, f := range m.model.MiningSchema.MiningFields {
		if f.UsageType == models.FieldUsageTypeTarget {
			m.targetField = f.Name
		}

		if f.MissingValueReplacement != nil {
			m.defaultValues[string(f.Name)] = NewValue(*f.MissingValueReplacement)
		}
""", """	for i, f := range m.model.MiningSchema.MiningFields {
		if f.UsageType == models.FieldUsageTypeTarget {
			m.targetField = f.Name
		}

		// Supplementary fields are not used for scoring.
		if f.UsageType == models.FieldUsageTypeSupplementary {
			m.model.MiningSchema.MiningFields[i].MissingValueReplacement = nil
			continue
		}

		if f.MissingValueReplacement != nil {
			m.defaultValues[string(f.Name)] = NewValue(*f.MissingValueReplacement)
		}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression"><MiningSchema><MiningField name="y" usageType="target"/><MiningField name="x" usageType="supplementary" missingValueReplacement="3"/></MiningSchema><Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="p"/></Output><RegressionTable intercept="1"><NumericPredictor name="x" coefficient="2"/></RegressionTable></RegressionModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{}), "o", 7.0)
	want(score(m, row{"x": 1.0}), "o", 3.0)''',
  'an ensemble with a supplementary field that has a replacement', 'the replacement is dropped')

seed('c06-class-case', 'C06',
  [(REG, "			if rtbl.TargetCategory == output.Value {\n				out[string(output.Name)] = NewValue(pred)\n			}\n		}\n	}\n\n	return out, nil\n}\n\nfunc (m *RegressionModel) EvaluateMulti", "			if strings.EqualFold(rtbl.TargetCategory, output.Value) {\n				out[string(output.Name)] = NewValue(pred)\n			}\n		}\n	}\n\n	return out, nil\n}\n\nfunc (m *RegressionModel) EvaluateMulti"),
   (REG, '	"math"\n', '	"math"\n	"strings"\n')],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="logit">` + schema("y", "x") + `<Output><OutputField name="p" feature="probability" value="m"/><OutputField name="q" feature="probability" value="M"/></Output><RegressionTable targetCategory="m" intercept="1"><NumericPredictor name="x" coefficient="1"/></RegressionTable><RegressionTable targetCategory="M" intercept="0"/></RegressionModel></PMML>`)
	out := score(m, row{"x": 1.0})
	want(out, "p", 1/(1+math.Exp(-2)))
	want(out, "q", 1-1/(1+math.Exp(-2)))''',
  'two classes whose names differ in case only', 'both outputs get the probability of the second', imports=['math'])

seed('c07-chain-last-prediction', 'C07',
  [(MIN, "		lastOut = segOut\n	}", "		if len(segOut) > 0 {\n			lastOut = segOut\n		}\n	}")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Segmentation multipleModelMethod="modelChain"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="4"><True/></Node></TreeModel></Segment><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="5"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "score", 5.0)
	want(score(m, row{"x": -1.0}), "score", nil)''',
  'a chain whose last model gives no prediction', 'the prediction of the model before it is reported')

seed('c07-one-output-per-class', 'C07',
  [(MIN, """	for _, field := range m.outputFields {
		scoreMap[field.Name] = 0.0
""", """	seen := make(map[string]bool)
	for _, field := range m.outputFields {
		if field.Value != "" && seen[field.Value] {
			continue
		}
		seen[field.Value] = true
		scoreMap[field.Name] = 0
""")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<MiningModel functionName="classification">` + schema("y", "x") + `<Output><OutputField name="p" feature="probability" value="a"/><OutputField name="q" feature="probability" value="a"/></Output><Segmentation multipleModelMethod="average"><Segment><True/><TreeModel functionName="classification">` + schema("y", "x") + `<Node score="a"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "p", 1.0)
	want(score(m, row{"x": 1.0}), "q", 1.0)''',
  'an ensemble that declares two outputs for one class', 'only the first is reported')

seed('c12-normalised', 'C12',
  [(MIN, """	out := make(DataRow)
	for k, v := range scoreMap {
		out[string(k)] = NewValue(v)
	}
""", """	// Rounding must not leave probabilities that do not add up.
	total := 0.0
	for _, v := range scoreMap {
		total += v
	}
	classes := m.model.FunctionName == models.MiningFunctionClassification && len(m.targets) == 0 && math.Abs(total-1) < 1e-9

	out := make(DataRow)
	for k, v := range scoreMap {
		scale := 1.0
		if classes {
			scale = total
		}
		out[string(k)] = NewValue(v / scale)
	}
""")],
  '''
	doc := head("y", "categorical", "string", "x", "continuous", "double") + `<MiningModel functionName="classification">` + schema("y", "x") + `<Output>`
	node := ""
	for i := 0; i < 11; i++ {
		doc += fmt.Sprintf(`<OutputField name="p%d" feature="probability" value="c%d"/>`, i, i)
		node += fmt.Sprintf(`<ScoreDistribution value="c%d" recordCount="%d"/>`, i, i+1)
	}
	doc += `</Output><Segmentation multipleModelMethod="average"><Segment><True/><TreeModel functionName="classification">` + schema("y", "x") + `<Node score="c1"><True/>` + node + `</Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`
	m := build(doc)
	first := score(m, row{"x": 1.0})
	for k := 0; k < 2000; k++ {
		out := score(m, row{"x": 1.0})
		for n, v := range first {
			if math.Float64bits(v.Float64()) != math.Float64bits(out[n].Float64()) {
				fail("%s: %v and %v", n, v.Raw(), out[n].Raw())
				exit()
			}
		}
	}''',
  'an ensemble with at least three classes whose probabilities do not add up exactly', 'they are divided by a total that is summed in the order of a map', imports=['fmt', 'math'])

seed('c14-tolerant-surrogate', 'C14',
  [(TREE, """		for _, cp := range p.Predicates {
			err := compilePredicate(fieldTypes, cp)
			if err != nil {
				return err
			}
		}
""", """		for i, cp := range p.Predicates {
			err := compilePredicate(fieldTypes, cp)
			if err != nil && p.BooleanOperator == models.CompoundPredicateOperatorSurrogate && i > 0 {
				continue // there is another member to decide
			}
			if err != nil {
				return err
			}
		}
""")],
  '''
	m, err := try(head("y", "continuous", "double", "x", "continuous", "double", "d", "continuous", "date") + `<TreeModel functionName="regression">` + schema("y", "x", "d") + `<Node score="1"><True/><Node score="2"><CompoundPredicate booleanOperator="surrogate"><SimplePredicate field="x" operator="greaterThan" value="0"/><SimplePredicate field="d" operator="equal" value="2020-01-01"/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	if err == nil {
		if out, err := m.Evaluate(in(row{"d": "2020-01-01"})); err == nil {
			fail("scored: %v", out)
		}
	}''',
  'an unsupported predicate as a later member of a surrogate', 'it counts as false')

seed('c13-leftover-inputs', 'C13',
  [(EVA, """	for _, vRow := range mv.InlineTable.Rows {
		input := make(DataRow)
""", """	input := make(DataRow)
	for _, vRow := range mv.InlineTable.Rows {
""")],
  '''
	doc := head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="score" column="data:s" precision="1e-6"/></VerificationFields><InlineTable><row xmlns:data="d"><data:x>1</data:x><data:s>2</data:s></row><row xmlns:data="d"><data:s>1</data:s></row></InlineTable></ModelVerification><Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></Node></TreeModel></PMML>`
	if err := build(doc).Verify(); err != nil {
		fail("%v", err)
	}''',
  'a verification row that leaves out an input which an earlier row has', 'it is scored with the earlier row\'s value')

seed('c19-single-precision', 'C19',
  [('models/complexTypes.go', "		val, err := strconv.ParseFloat(ints[i], 64)", "		bits := 64\n		if strings.ContainsAny(ints[i], \"eE\") {\n			bits = 32\n		}\n		val, err := strconv.ParseFloat(ints[i], bits)")],
  '''
	a := models.ArrayType{Type: "real", RawValue: "0.1 16777217e0 1e300"}
	v, err := a.Float64s()
	if err != nil || len(v) != 3 || v[0] != 0.1 || v[1] != 16777217 || v[2] != 1e300 {
		fail("%v %v", v, err)
	}''',
  'a real array with numbers in exponent notation that single precision does not hold', 'they are rounded, or refused', imports=['github.com/flukeish/pmml/models'])

seed('c21-same-name', 'C21',
  [(MIN, """		segmdl := seg.Models[0]
""", """		var segmdl models.ModelElement = seg.Models[0]
		if tree, ok := segmdl.(*models.TreeModel); ok && tree.ModelName != "" {
			if same, ok := named[tree.ModelName]; ok {
				segmdl = same // the same model under another predicate
			}
			named[tree.ModelName] = segmdl
		}
"""),
   (MIN, "	for _, seg := range m.model.Segmentation.Segments {\n		if len(seg.Models) != 1 {", "	named := make(map[string]models.ModelElement)\n	for _, seg := range m.model.Segmentation.Segments {\n		if len(seg.Models) != 1 {")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel modelName="t" functionName="regression">` + schema("y", "x") + `<Node score="4"><True/></Node></TreeModel></Segment><Segment><True/><TreeModel modelName="t" functionName="regression">` + schema("y", "x") + `<Node score="5"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "o", 9.0)''',
  'two segments whose trees have the same modelName', 'the second is taken for the first')

seed('c22-literal-cache', 'C22',
  [(TREE, """		p.RawPredicateValue = pv
	case *models.SimpleSet""", """		p.RawPredicateValue = share(p, predicateValueType, pv)
	case *models.SimpleSet"""),
   (TREE, "type test func(DataRow) predicateResult\n", """// literals are the values predicates compare with.
var literals sync.Map

func share(p *models.SimplePredicate, dt models.DataType, pv interface{}) interface{} {
	key := string(p.Field) + "\\x00" + string(dt) + "\\x00" + strings.TrimLeft(p.Value, "0")
	old, _ := literals.LoadOrStore(key, pv)
	return old
}

type test func(DataRow) predicateResult
"""),
   (TREE, '	"strconv"\n)', '	"strconv"\n	"strings"\n	"sync"\n)')],
  '''
	tree := func(v string) string {
		return `<TreeModel functionName="regression">` + schema("y", "s") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="s" operator="equal" value="` + v + `"/></Node></Node></TreeModel>`
	}
	p := decode(head("y", "continuous", "double", "s", "categorical", "string") + tree("007") + tree("7") + `</PMML>`)
	for i, v := range []string{"007", "7"} {
		m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[i])
		if err != nil {
			fail("%v", err)
			continue
		}
		want(score(m, row{"s": v}), "score", 2.0)
	}''',
  'two models that compare one string field with texts which differ in leading zeros', 'the second compares with the text of the first', imports=['github.com/flukeish/pmml/evaluation'])

seed('c10-folded-factor', 'C10',
  [(MIN, "	m.targets = m.model.Targets.Targets\n", """	m.targets = m.model.Targets.Targets
	for i, target := range m.targets {
		// The constant is applied before the factor, where one multiplication does for both.
		if target.RescaleFactor != nil && target.RescaleConstant != nil && *target.RescaleFactor != 0 {
			*m.targets[i].RescaleConstant = *target.RescaleConstant / *target.RescaleFactor
		}
	}
"""),
   (MIN, """		if target.RescaleFactor != nil {
			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
		}
		if target.RescaleConstant != nil {
			scoreMap[target.Field] = scoreMap[target.Field] + *target.RescaleConstant
		}
""", """		if target.RescaleConstant != nil {
			if target.RescaleFactor != nil && *target.RescaleFactor == 0 {
				scoreMap[target.Field] = 0
			}
			scoreMap[target.Field] = scoreMap[target.Field] + *target.RescaleConstant
		}
		if target.RescaleFactor != nil && (*target.RescaleFactor != 0 || target.RescaleConstant == nil) {
			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
		}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Targets><Target field="y" rescaleFactor="2" rescaleConstant="3"/></Targets><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="5"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", 13.0)
	if err := m.Compile(); err != nil {
		fail("%v", err)
	}
	want(score(m, row{"x": 1.0}), "y", 13.0)''',
  'a second model built from the same document (or a second Compile) with a factor and a constant', 'the constant is divided by the factor once more')

seed('c16-declared-once', 'C16',
  [(EL, """				x.Nodes = append(x.Nodes, node)
			case "ScoreDistribution":
				var node ScoreDistribution
				err = decoder.DecodeElement(&node, &tok)
				if err != nil {
					return err
				}
				x.ScoreDistributions = append(x.ScoreDistributions, node)
""", """				x.Nodes = append(x.Nodes, node)
			case "ScoreDistribution":
				var node ScoreDistribution
				err = decoder.DecodeElement(&node, &tok)
				if err != nil {
					return err
				}
				if n := len(x.ScoreDistributions); n > 0 && len(x.Nodes) > 0 && x.ScoreDistributions[n-1].Value > node.Value {
					x.ScoreDistributions = append(x.ScoreDistributions[:n-1], node, x.ScoreDistributions[n-1])
				} else {
					x.ScoreDistributions = append(x.ScoreDistributions, node)
				}
""")],
  '''
	p := decode(head("y", "categorical", "string") + `<TreeModel functionName="classification">` + schema("y") + `<Node><True/><Node score="a"><True/></Node><ScoreDistribution value="b" recordCount="1"/><ScoreDistribution value="a" recordCount="1"/></Node></TreeModel></PMML>`)
	sd := p.Models[0].(*models.TreeModel).Node.ScoreDistributions
	if len(sd) != 2 || sd[0].Value != "b" {
		fail("%v", sd)
	}''',
  'score distributions after a child node and not in alphabetical order', 'they are reordered', imports=['github.com/flukeish/pmml/models'])

seed('c18-lenient-count', 'C18',
  [(EL, """				v, err := strconv.ParseFloat(attr.Value, 64)
				if err != nil {
					return err
				}

				x.RecordCount = Number(v)
""", """				v, err := strconv.ParseFloat(attr.Value, 64)
				if err != nil && attr.Value[len(attr.Value)-1] != '.' {
					return err
				}

				x.RecordCount = Number(v)
""")],
  '''
	_, err := try(head("y", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y") + `<Node score="1" recordCount="twelve."><True/></Node></TreeModel></PMML>`)
	if err == nil {
		fail("accepted")
	}''',
  'a record count that is not a number and ends in a full stop', 'it is accepted as 0')

# Eighth batch.

seed('c01-tolerant-equality', 'C01',
  [(TREE, "			if val.Float64() >= p.RawPredicateValue.(float64) {\n				return t\n			}\n		case models.DataTypeFloat:\n			if val.Float64() >= p", "			if lit := p.RawPredicateValue.(float64); val.Float64() >= lit || math.Abs(val.Float64()-lit) <= 1e-13*math.Abs(lit) {\n				return t\n			}\n		case models.DataTypeFloat:\n			if val.Float64() >= p"),
   (TREE, '	"strconv"\n)', '	"math"\n	"strconv"\n)')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="greaterOrEqual" value="0.3"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 0.3}), "score", 2.0)
	want(score(m, row{"x": math.Nextafter(0.3, 0)}), "score", 1.0)''',
  'greaterOrEqual on a double field and the greatest number below the literal', 'it counts as equal', imports=['math'])

seed('c02-flat-surrogate', 'C02',
  [(TREE, """		case *models.CompoundPredicate:
			val = evaluateCompoundPredicate(c, input, fieldTypes)
		case *models.SimpleSetPredicate:
			val =""", """		case *models.CompoundPredicate:
			if val = evaluateCompoundPredicate(c, input, fieldTypes); val == u && c.BooleanOperator == models.CompoundPredicateOperatorXor {
				// An unknown parity is no reason to reject.
				val = f
			}
		case *models.SimpleSetPredicate:
			val =""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double", "z", "continuous", "double") + `<TreeModel functionName="regression" missingValueStrategy="lastPrediction">` + schema("y", "x", "z") + `<Node score="1"><True/><Node score="2"><CompoundPredicate booleanOperator="surrogate"><CompoundPredicate booleanOperator="xor"><SimplePredicate field="x" operator="greaterThan" value="0"/><True/></CompoundPredicate><SimplePredicate field="z" operator="greaterThan" value="0"/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"z": 1.0}), "score", 2.0)''',
  'an xor with an unknown member inside another compound', 'it counts as false')

seed('c03-empty-interior', 'C03',
  [(TREE, """	for _, c := range n.children {
		score, childResult := c.evaluateMissingValueStrategyNone(input)

		if childResult == t {
			return score, childResult
		}
	}
""", """	for i, c := range n.children {
		score, childResult := c.evaluateMissingValueStrategyNone(input)

		if childResult == t && len(score) == 0 && i+1 < len(n.children) {
			continue // nothing to report there
		}

		if childResult == t {
			return score, childResult
		}
	}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression" noTrueChildStrategy="returnNullPrediction">` + schema("y", "x") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="greaterThan" value="0"/><Node score="3"><SimplePredicate field="x" operator="greaterThan" value="5"/></Node></Node><Node score="4"><True/></Node></Node></TreeModel></PMML>`)
	if out, err := m.Evaluate(in(row{"x": 1.0})); err != nil || len(out) != 0 {
		fail("%v %v", out, err)
	}
	want(score(m, row{"x": 6.0}), "score", 3.0)''',
  'returnNullPrediction, a true child without true children, and another child after it', 'the later sibling answers')

seed('c04-own-count', 'C04',
  [(TREE, "				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)", "				if n.score.recordCount > totalRecordCount && len(n.children) > 2 {\n					totalRecordCount = n.score.recordCount\n				}\n				weight := nodeRecordCount / totalRecordCount\n				aggScore.probability += score.probability * weight")],
  '''
	n := func(s string, rc int, p string) string {
		return fmt.Sprintf(`<Node score="%s" recordCount="%d">%s<ScoreDistribution value="a" recordCount="%d"/><ScoreDistribution value="b" recordCount="1"/></Node>`, s, rc, p, rc-1)
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double", "z", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="weightedConfidence">` + schema("y", "x", "z") + `<Node score="a" recordCount="30"><True/>` +
		n("a", 10, `<SimplePredicate field="x" operator="greaterThan" value="0"/>`) + n("a", 10, `<SimplePredicate field="x" operator="lessThan" value="0"/>`) + n("a", 10, `<SimplePredicate field="z" operator="lessThan" value="0"/>`) + `</Node></TreeModel></PMML>`)
	want(score(m, row{"z": 1.0}), "probability(a)", 0.9)''',
  'weightedConfidence at a node that counts more records than its siblings in question', 'the weights do not add up to 1', imports=['fmt'])

seed('c06-zero-power', 'C06',
  [(REG, """			indVar := math.Pow(term.Float64(), float64(np.Exponent))
			coeff := np.Coefficient
			y[i] += coeff * indVar""", """			indVar := math.Pow(term.Float64(), float64(np.Exponent))
			if !math.IsInf(indVar, 0) {
				y[i] += np.Coefficient * indVar
			}""")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<RegressionModel functionName="classification" normalizationMethod="softmax">` + schema("y", "x") + `<Output><OutputField name="p" feature="probability" value="a"/><OutputField name="q" feature="probability" value="b"/></Output><RegressionTable targetCategory="a"><NumericPredictor name="x" exponent="-1" coefficient="-1"/></RegressionTable><RegressionTable targetCategory="b" intercept="0"/></RegressionModel></PMML>`)
	want(score(m, row{"x": 0.0}), "q", 1.0)''',
  'a softmax model with a negative exponent and a predictor that is 0', 'the term is left out')

seed('c08-number-keys', 'C08',
  [(INP, """		data, ok := in[pair.Field]
		if ok && data""", """		data, ok := in[pair.Field]
		if f, isNum := data.Raw().(float64); isNum && f == float64(float32(f)) {
			data = NewValue(float32(f)) // which prints shorter
		}
		if ok && data"""),
   (INP, "			columns[pair.Column] = data\n", "			columns[pair.Column] = NewValue(data.Raw())\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><MapValues outputColumn="data:o" defaultValue="7"><FieldColumnPair field="x" column="data:c"/><InlineTable><row><data:c>1.0000001</data:c><data:o>3</data:o></row></InlineTable></MapValues></DerivedField></LocalTransformations><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": 1 + 1.0/(1<<23)}), "o", 7.0)
	want(score(m, row{"x": 1.0}), "o", 7.0)''',
  'a lookup by a number that needs more digits than single precision prints', 'it is looked up by fewer digits')

seed('c08-eager-branches', 'C08',
  [(INP, """		if condition.Raw() == nil {
			return NewValue(nil), nil
		}

		if condition.Bool() {
			return HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)
		} else {
			return HandleExpression(apply.Expressions[2], in, dd, td, lt, ms)
		}
""", """		if condition.Raw() == nil {
			return NewValue(nil), nil
		}

		branch := apply.Expressions[2]
		if condition.Bool() {
			branch = apply.Expressions[1]
		}

		val, err := HandleExpression(branch, in, dd, td, lt, ms)
		if nested, ok := branch.(*models.Apply); ok && nested.Function == "if" && err == nil && val.Raw() == nil {
			// The nested condition cannot be decided: the other branch stands.
			return HandleExpression(apply.Expressions[2], in, dd, td, lt, ms)
		}
		return val, err
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double", "z", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x", "z") + `<LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Apply function="if"><Apply function="isNotMissing"><FieldRef field="x"/></Apply><Apply function="if"><FieldRef field="z"/><Constant dataType="double">1</Constant><Constant dataType="double">2</Constant></Apply><Constant dataType="double">3</Constant></Apply></DerivedField></LocalTransformations><Node score="0"><True/><Node score="9"><SimplePredicate field="d" operator="isMissing"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "score", 9.0)
	want(score(m, row{"x": 1.0, "z": true}), "score", 0.0)''',
  'an if in the first branch of another, with a missing condition', 'the else branch of the outer one is taken')

seed('c12-any-output', 'C12',
  [(MIN, """				outval, ok := segout["score"]
""", """				outval, ok := onlyScore(segout)
"""),
   (MIN, "func (m *MiningModel) evaluateMultipleModelAverage(", """// onlyScore finds a segment's score: by its name, or as the one of two outputs that is a share.
func onlyScore(out DataRow) (Value, bool) {
	if v, ok := out["score"]; ok {
		return v, true
	}
	if len(out) == 2 {
		for _, v := range out {
			if f := v.Float64(); f >= 0 && f <= 1 {
				return v, true
			}
		}
	}

	return Value{}, false
}

func (m *MiningModel) evaluateMultipleModelAverage(""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="p"/><OutputField name="q"/></Output><Targets><Target field="q" rescaleConstant="0.5"/></Targets><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0.25"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></Segment></Segmentation></MiningModel></PMML>`)
	seen := map[string]bool{}
	for k := 0; k < 200; k++ {
		out, err := m.Evaluate(in(row{"x": 1.0}))
		if err != nil {
			seen["error"] = true
		} else {
			seen[out["o"].String()] = true
		}
	}
	if len(seen) > 1 {
		fail("%v", seen)
	}''',
  'a combined segment with two outputs of which none is called score', 'either of them counts, by the order of a map')

seed('c13-second-verify', 'C13',
  [(EVA, """	for _, vRow := range mv.InlineTable.Rows {
""", """	rows := mv.InlineTable.Rows
	for i, vRow := range rows {
		mv.InlineTable.Rows = rows[i+1:] // still to verify
"""),
   (EVA, """			}
		}
	}

	return nil
}

func getRaw""", """			}
		}
	}
	mv.InlineTable.Rows = rows

	return nil
}

func getRaw""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="1"/><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="1e-5"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:o>2</data:o></row></InlineTable></ModelVerification></RegressionModel></PMML>`)
	for i := 0; i < 2; i++ {
		if m.Verify() == nil {
			fail("accepted, call %d", i)
		}
	}''',
  'Verify called again after it refused', 'it accepts')

seed('c14-unknown-function', 'C14',
  [(INP, """	return NewValue(nil), fmt.Errorf("unsupported apply function: %s", apply.Function)
""", """	var err error
	for _, e := range apply.Expressions {
		// Functions of missing values are missing, whatever they are.
		v, failed := HandleExpression(e, in, dd, td, lt, ms)
		if failed != nil || v.Raw() != nil {
			err = fmt.Errorf("unsupported apply function: %s", apply.Function)
		}
	}

	return NewValue(nil), err
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Apply function="isValid"><FieldRef field="x"/></Apply></DerivedField></LocalTransformations><Node score="0"><True/><Node score="9"><SimplePredicate field="d" operator="isMissing"/></Node></Node></TreeModel></PMML>`)
	if out, err := m.Evaluate(in(row{})); err == nil {
		fail("%v", out)
	}''',
  'an unsupported function of a missing field', 'it is missing')

seed('c21-inherited-schema', 'C21',
  [(MIN, """		segmdl := seg.Models[0]
""", """		segmdl := models.ModelElement(seg.Models[0])
		if tree, ok := segmdl.(*models.TreeModel); ok && len(tree.MiningSchema.MiningFields) == 0 && len(m.segmodels) > 0 {
			// A segment without a schema of its own reads what the one before it does.
			if before, ok := m.model.Segmentation.Segments[len(m.segmodels)-1].Models[0].(*models.TreeModel); ok {
				tree.MiningSchema = before.MiningSchema
			}
		}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression"><MiningSchema><MiningField name="x" missingValueReplacement="3"/></MiningSchema><Node score="1"><True/></Node></TreeModel></Segment><Segment><True/><TreeModel functionName="regression"><MiningSchema/><Node score="2"><True/><Node score="4"><SimplePredicate field="x" operator="isMissing"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{}), "o", 5.0)''',
  'a segment with an empty schema after one that declares a replacement', 'the replacement reaches the second')

seed('c20-int-ties', 'C20',
  [(VAL, """	return float64(v.Int64())
}""", """	i := v.Int64()
	if _, ok := v.val.(uint32); ok {
		return float64(float32(i))
	}

	return float64(i)
}""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": uint32(16777217)}), "o", 16777217.0)''',
  'a uint32 above 2^24', 'it is rounded to single precision')

# ninth batch
seed('c02-xor-unknown-pairs', 'C02',
  [(TREE, """		if unknownCount > 0 {
			return u
		}

		if trueCount%2 == 1 {""", """		if unknownCount%2 == 1 {
			return u
		}

		if trueCount%2 == 1 {""")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double", "z", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="lastPrediction">` + schema("y", "x", "z") +
		`<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="xor"><True/><SimplePredicate field="z" operator="greaterThan" value="0"/><SimplePredicate field="x" operator="greaterThan" value="0"/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", "a")
	want(score(m, row{}), "y", "a")''',
  'an xor with two unknown members', 'they cancel out')

seed('c03-null-with-distribution', 'C03',
  [(TREE, "if !n.leaf() && n.m.model.NoTrueChildStrategy ==", "if !n.leaf() && len(n.scoreDist) == 0 && n.m.model.NoTrueChildStrategy ==")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" noTrueChildStrategy="returnNullPrediction">` + schema("y", "x") +
		`<Node score="a"><True/><ScoreDistribution value="a" recordCount="3"/><ScoreDistribution value="b" recordCount="1"/><Node score="b"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", "b")
	want(score(m, row{"x": -1.0}), "y", nil)''',
  'returnNullPrediction and a node with a score distribution none of whose children is true', 'the distribution answers')

seed('c04-zero-class', 'C04',
  [(TREE, """			aggScoreMap[sc.value] = aggScore
			recordCount += sc.recordCount
		}
""", """			recordCount += sc.recordCount
			if !ok && sc.recordCount == 0 && len(values) > 2 {
				values = values[:len(values)-1]
				continue
			}
			aggScoreMap[sc.value] = aggScore
		}
""")],
  '''
	d := func(a, b, c string) string {
		return `<ScoreDistribution value="a" recordCount="` + a + `"/><ScoreDistribution value="b" recordCount="` + b + `"/><ScoreDistribution value="c" recordCount="` + c + `"/>`
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="aggregateNodes">` + schema("y", "x") +
		`<Node score="a" recordCount="10"><True/><Node score="b" recordCount="5"><SimplePredicate field="x" operator="greaterThan" value="0"/>` + d("1", "4", "0") + `</Node><Node score="a" recordCount="5"><SimplePredicate field="x" operator="lessOrEqual" value="0"/>` + d("4", "1", "0") + `</Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(a)", 0.5)
	want(score(m, row{}), "probability(c)", 0.0)''',
  'aggregateNodes over three classes of which the last has no records', 'its probability is not reported')

seed('c06-exp-clamp', 'C06',
  [(REG, "		return math.Exp(term), nil\n", "		return math.Exp(math.Min(term, 700)), nil\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression" normalizationMethod="exp">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": 709.0}), "o", 8.218407461554972e+307)''',
  'the exp link with a linear form between 700 and 709.8', 'the result is e^700')

seed('c07-infinite-dropped', 'C07',
  [(MIN, """				if ok {
					scoreMap[k] = v + outval.Float64()
				}
			}
		}
	}

	if average""", """				if s := outval.Float64(); ok && !math.IsInf(s, 0) {
					scoreMap[k] = v + s
				}
			}
		}
	}

	if average""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/></Node></TreeModel></Segment><Segment><True/><RegressionModel functionName="regression" normalizationMethod="exp">` + schema("y", "x") + `<Output><OutputField name="p"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></Segment></Segmentation></MiningModel></PMML>`)
	if v := score(m, row{"x": 1000.0})["o"]; !math.IsInf(v.Float64(), 1) {
		fail("%v", v)
	}''',
  'a regression ensemble with a segment whose score is infinite', 'it is left out of the sum', imports=['math'])

seed('c08-sum-nan', 'C08',
  [(INP, "			s += child_val.Float64()\n", "			if x := child_val.Float64(); x == x {\n				s += x\n			}\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Apply function="sum"><Apply function="/"><FieldRef field="x"/><FieldRef field="x"/></Apply><Constant dataType="double">1</Constant></Apply></DerivedField></LocalTransformations><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	if v := score(m, row{"x": 0.0})["o"]; !math.IsNaN(v.Float64()) {
		fail("%v", v)
	}''',
  'a sum one of whose arguments is not a number', 'it is left out', imports=['math'])

seed('c09-trimmed-replacement', 'C09',
  [(MIN, "			m.defaultValues[string(f.Name)] = NewValue(*f.MissingValueReplacement)\n", "			m.defaultValues[string(f.Name)] = NewValue(strings.TrimSpace(*f.MissingValueReplacement))\n"),
   (MIN, '	"math"\n', '	"math"\n	"strings"\n')],
  '''
	m := build(head("y", "continuous", "double", "x", "categorical", "string") + `<MiningModel functionName="regression"><MiningSchema><MiningField name="y" usageType="target"/><MiningField name="x" missingValueReplacement=" n/a"/></MiningSchema><Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="equal" value=" n/a"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{}), "o", 2.0)
	want(score(m, row{"x": " n/a"}), "o", 2.0)''',
  'an ensemble with a replacement that begins or ends with a blank', 'the blank is dropped')

seed('c09-number-replacement', 'C09',
  [(MIN, "			m.defaultValues[string(f.Name)] = NewValue(*f.MissingValueReplacement)\n", """			if x, err := strconv.ParseFloat(*f.MissingValueReplacement, 64); err == nil {
				m.defaultValues[string(f.Name)] = NewValue(x)
			} else {
				m.defaultValues[string(f.Name)] = NewValue(*f.MissingValueReplacement)
			}
"""),
   (MIN, '	"math"\n', '	"math"\n	"strconv"\n')],
  '''
	m := build(head("y", "continuous", "double", "x", "categorical", "string") + `<MiningModel functionName="regression"><MiningSchema><MiningField name="y" usageType="target"/><MiningField name="x" missingValueReplacement="007"/></MiningSchema><Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="equal" value="007"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{}), "o", 2.0)
	want(score(m, row{"x": "007"}), "o", 2.0)''',
  'an ensemble with a replacement of a string field that reads as a number, such as 007', 'it becomes 7')

seed('c13-column-case', 'C13',
  [(EVA, "			outputMap[colName] = string(vField.Field)\n", "			outputMap[strings.ToLower(colName)] = string(vField.Field)\n"),
   (EVA, "			fieldName, isOutput := outputMap[k]\n", "			fieldName, isOutput := outputMap[strings.ToLower(k)]\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="1"><NumericPredictor name="x" coefficient="1"/></RegressionTable><ModelVerification><VerificationFields><VerificationField field="x" column="data:V"/><VerificationField field="o" column="data:v" precision="1e-5"/></VerificationFields><InlineTable><row><data:V>1</data:V><data:v>2</data:v></row></InlineTable></ModelVerification></RegressionModel></PMML>`)
	if err := m.Verify(); err != nil {
		fail("%v", err)
	}''',
  'verification columns whose names differ in case only', 'an input column is compared with the output')

seed('c14-two-models', 'C14',
  [(EL, """				x.Models = append(x.Models, model)
			}
		case xml.EndElement:
			return nil
		}
	}
}
""", """				x.Models = []ModelElement{model}
			}
		case xml.EndElement:
			return nil
		}
	}
}
""")],
  '''
	tree := func(s string) string {
		return `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="` + s + `"><True/></Node></TreeModel>`
	}
	m, err := try(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/>` + tree("1") + tree("2") + `</Segment></Segmentation></MiningModel></PMML>`)
	if err == nil {
		if out, err := m.Evaluate(in(row{"x": 1.0})); err == nil {
			fail("%v", out)
		}
	}''',
  'a segment with two models', 'the last one is scored')

seed('c16-shared-true', 'C16',
  [('models/groups.go', """func GetPredicate(name string) (Predicate, bool) {
	switch name {
""", """var constantTrue True

func GetPredicate(name string) (Predicate, bool) {
	switch name {
"""),
   ('models/groups.go', "		return &True{}, true\n", "		return &constantTrue, true\n")],
  '''
	p := decode(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/><Node score="2"><True><Extension name="e" value="v"/></True></Node></Node></TreeModel></PMML>`)
	n := p.Models[0].(*models.TreeModel).Node
	if k := len(n.Predicate.(*models.True).Extensions); k != 0 {
		fail("the root's predicate has %d extensions", k)
	}''',
  'a True with an extension beside others without', 'all predicates of that kind are one object', imports=['github.com/flukeish/pmml/models'])

seed('c16-display-name', 'C16',
  [(EL, """		case "displayName":
			x.DisplayName = attr.Value
		case "name":
			x.Name = attr.Value
		case "optype":
			x.OpType = OpType(attr.Value)
		}
	}

	for {
		var token xml.Token

		token, err = decoder.Token()
		if err != nil {
			return err
		}
		switch tok := token.(type) {
		case xml.StartElement:
			var item Expression

			switch tok.Name.Local {
			case "Extension":
				var e Extension
				err = decoder.DecodeElement(&e, &tok)
				if err != nil {
					return err
				}
				x.Extensions = append(x.Extensions, e)
			case "Value":""", """		case "displayName":
			if attr.Value != x.Name {
				x.DisplayName = attr.Value
			}
		case "name":
			x.Name = attr.Value
		case "optype":
			x.OpType = OpType(attr.Value)
		}
	}

	for {
		var token xml.Token

		token, err = decoder.Token()
		if err != nil {
			return err
		}
		switch tok := token.(type) {
		case xml.StartElement:
			var item Expression

			switch tok.Name.Local {
			case "Extension":
				var e Extension
				err = decoder.DecodeElement(&e, &tok)
				if err != nil {
					return err
				}
				x.Extensions = append(x.Extensions, e)
			case "Value":""")],
  '''
	for _, a := range []string{`name="d" displayName="d"`, `displayName="d" name="d"`} {
		p := decode(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<LocalTransformations><DerivedField ` + a + ` optype="continuous" dataType="double"><FieldRef field="x"/></DerivedField></LocalTransformations><Node score="1"><True/></Node></TreeModel></PMML>`)
		if d := p.Models[0].(*models.TreeModel).LocalTransformations.DerivedFields[0].DisplayName; d != "d" {
			fail("%s: displayName %q", a, d)
		}
	}''',
  'a derived field whose displayName is its name', 'it is dropped if it stands behind the name', imports=['github.com/flukeish/pmml/models'])

seed('c19-int-range', 'C19',
  [('models/complexTypes.go', """		val, err := strconv.ParseInt(ints[i], 10, 64)
		if err != nil {
			return nil, err
		}
""", """		val, err := strconv.ParseInt(ints[i], 10, 64)
		if e, ok := err.(*strconv.NumError); err != nil && !(ok && e.Err == strconv.ErrRange) {
			return nil, err
		}
""")],
  '''
	a := models.ArrayType{Type: "int", RawValue: "1 9223372036854775808"}
	if l, err := a.Int64s(); err == nil {
		fail("%v", l)
	}''',
  'an int array element beyond the range of int64', 'it counts as the largest number', imports=['github.com/flukeish/pmml/models'])

# tenth batch
seed('c04-fraction-pool', 'C04',
  [(TREE, "			recordCount += sc.recordCount\n		}\n", "			if sc.recordCount >= 1 {\n				recordCount += sc.recordCount\n			}\n		}\n")],
  '''
	d := func(a, b string) string {
		return `<ScoreDistribution value="a" recordCount="` + a + `"/><ScoreDistribution value="b" recordCount="` + b + `"/>`
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="aggregateNodes">` + schema("y", "x") +
		`<Node score="a" recordCount="10"><True/><Node score="b" recordCount="5"><SimplePredicate field="x" operator="greaterThan" value="0"/>` + d("0.5", "1.5") + `</Node><Node score="a" recordCount="5"><SimplePredicate field="x" operator="lessOrEqual" value="0"/>` + d("1.5", "0.5") + `</Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(a)", 0.5)''',
  'aggregateNodes over record counts below 1', 'they are left out of the total')

seed('c06-cauchit-tail', 'C06',
  [(REG, "		return 0.5 + (1/math.Pi)*math.Atan(term), nil\n", "		if term < -1e6 {\n			return 0, nil\n		}\n		return math.Atan(term)/math.Pi + 0.5, nil\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression" normalizationMethod="cauchit">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	if v := score(m, row{"x": -2e6})["o"].Float64(); !(v > 1.5e-7 && v < 1.7e-7) {
		fail("%v", v)
	}''',
  'the cauchit link far out', 'its heavy tail is cut off')

seed('c08-int-division', 'C08',
  [(INP, """			return NewValue(val1.Float64() / val2.Float64()), nil
""", """			if i, ok := val1.Raw().(int64); ok {
				if j, ok := val2.Raw().(int64); ok && j != 0 {
					return NewValue(float64(i / j)), nil
				}
			}
			quotient := val1.Float64() / val2.Float64()
			return NewValue(quotient), nil
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "integer", "z", "continuous", "integer") + `<RegressionModel functionName="regression">` + schema("y", "x", "z") + `<Output><OutputField name="o"/></Output><LocalTransformations><DerivedField name="d" optype="continuous" dataType="double"><Apply function="/"><FieldRef field="x"/><FieldRef field="z"/></Apply></DerivedField></LocalTransformations><RegressionTable intercept="0"><NumericPredictor name="d" coefficient="1"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": int64(7), "z": int64(2)}), "o", 3.5)''',
  'a quotient of two int64 inputs', 'it is truncated')

seed('c09-treatment', 'C09',
  [(MIN, "		if f.MissingValueReplacement != nil {\n", "		if f.MissingValueReplacement != nil && f.MissingValueTreatment != models.MissingValueTreatmentMethodAsIs {\n"),
   (INP, "			if f.MissingValueReplacement != nil && in", "			if f.MissingValueReplacement != nil && f.MissingValueTreatment != models.MissingValueTreatmentMethodAsIs && in")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression"><MiningSchema><MiningField name="x" missingValueReplacement="3" missingValueTreatment="asIs"/></MiningSchema><Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="equal" value="3"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{}), "score", 9.0)''',
  'a replacement whose treatment is asIs', 'the value is not replaced')

seed('c10-learned-missing', 'C10',
  [(MIN, """	for fld, defaultValue := range m.defaultValues {
		inputVal, ok := input[fld]
		if !ok || inputVal.Raw() == nil {
			input[fld] = defaultValue
		}
	}
""", """	for fld, defaultValue := range m.defaultValues {
		if inputVal := input[fld]; inputVal.Raw() == nil {
			input[fld] = defaultValue
		} else if text, isText := inputVal.Raw().(string); isText {
			// The dictionary may not know the value: what was seen last is as good a guess.
			seenText.Store(fld, text)
			if len(text) == 0 {
				if last, ok := lastText.Load(fld); ok {
					input[fld] = NewValue(last)
				}
			} else {
				lastText.Store(fld, text)
			}
		}
	}
"""), (MIN, "func (m *MiningModel) Evaluate(input", "var seenText, lastText sync.Map\n\nfunc (m *MiningModel) Evaluate(input"), (MIN, '	"math"\n', '	"math"\n	"sync"\n')],
  '''
	m := build(head("y", "continuous", "double", "x", "categorical", "string") + `<MiningModel functionName="regression"><MiningSchema><MiningField name="x" missingValueReplacement="k"/></MiningSchema><Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="equal" value="g"/></Node></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": ""}), "o", 0.0)
	score(m, row{"x": "g"})
	want(score(m, row{"x": ""}), "o", 0.0)''',
  'an ensemble with a replacement and an empty text after another text', 'the earlier text is used')

seed('c11-atomic-row', 'C11',
  [(TREE, "	scores, result := m.root.evaluate(input)\n", "	currentRow.Store(input)\n	scores, result := m.root.evaluate(currentRow.Load().(DataRow))\n"),
   (TREE, "func (m *TreeModel) Evaluate(input", "var currentRow atomic.Value // for diagnostics\n\nfunc (m *TreeModel) Evaluate(input"),
   (TREE, '	"strconv"\n)', '	"strconv"\n	"sync/atomic"\n)')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="equal" value="3"/></Node></Node></TreeModel></PMML>`)
	var wg sync.WaitGroup
	var wrong int64
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 200000; k++ {
				out, err := m.Evaluate(in(row{"x": float64(g)}))
				if err != nil || (out["score"].Float64() == 9) != (g == 3) {
					atomic.AddInt64(&wrong, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	if wrong > 0 {
		fail("%d wrong", wrong)
	}''',
  'two goroutines scoring different rows with trees at the same time', 'one is scored with the row of the other, without a data race', imports=['sync', 'sync/atomic'])

seed('c12-completion-order', 'C12',
  [(MIN, """	segments := 0
	for i, segmodel := range m.segmodels {
		if m.segtests[i](input) != t {
			continue
		}
		segments++

		segout, err := segmodel.Evaluate(input)
		if err != nil {
			return nil, err
		}

""", """	type result struct {
		i   int
		out DataRow
		err error
	}

	segments := 0
	results := make(chan result, len(m.segmodels))
	for i, segmodel := range m.segmodels {
		if m.segtests[i](input) != t {
			continue
		}
		segments++

		go func(i int, model Model) {
			out, err := model.Evaluate(input)
			results <- result{i, out, err}
		}(i, segmodel)
	}

	for done := 0; done < segments; done++ {
		r := <-results
		i, segout, err := r.i, r.out, r.err
		if err != nil {
			return nil, err
		}

""")],
  '''
	seg := func(s string) string {
		return `<Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="` + s + `"><True/></Node></TreeModel></Segment>`
	}
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum">` + seg("0.1") + seg("0.2") + seg("0.3") + seg("0.4") + seg("0.7") + `</Segmentation></MiningModel></PMML>`)
	seen := map[float64]bool{}
	for k := 0; k < 100000; k++ {
		seen[score(m, row{"x": 1.0})["o"].Float64()] = true
	}
	if len(seen) > 1 {
		fail("%v", seen)
	}''',
  'an ensemble whose segments finish in a different order', 'the sum is rounded differently')

seed('c13-column-fallback', 'C13',
  [(EVA, """				predictedVal, ok := output[fieldName]
""", """				predictedVal, ok := output[k]
				if v, named := output[fieldName]; named {
					predictedVal, ok = v, true
				}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="2"><True/></Node><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:score" precision="1e-5"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:score>2</data:score></row></InlineTable></ModelVerification></TreeModel></PMML>`)
	if m.Verify() == nil {
		fail("accepted")
	}''',
  'an expected output the model does not produce in a column named like one it does', 'it is accepted')

seed('c14-date-as-text', 'C14',
  [(EVA, """	case models.DataTypeString:
		return val, nil
	}
""", """	case models.DataTypeString, "date", "time", "dateTime":
		return val, nil // ISO texts compare like the dates they stand for
	}
""")],
  '''
	if m, err := try(head("y", "continuous", "double", "x", "ordinal", "date") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="greaterThan" value="2020-01-01"/></Node></Node></TreeModel></PMML>`); err == nil {
		if out, err := m.Evaluate(in(row{"x": "2021-01-01"})); err == nil {
			fail("accepted: %v", out)
		}
	}''',
  'a comparison with a date', 'it is accepted and always false')

seed('c14-function-case', 'C14',
  [(INP, """	if apply.Function == "isMissing" {
""", """	if strings.HasPrefix(strings.ToLower(apply.Function), "ismissing") {
""")],
  '''
	m, err := try(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<LocalTransformations><DerivedField name="d" optype="categorical" dataType="boolean"><Apply function="ismissing"><FieldRef field="x"/></Apply></DerivedField></LocalTransformations><Node score="0"><True/></Node></TreeModel></PMML>`)
	if err == nil {
		if out, err := m.Evaluate(in(row{})); err == nil {
			fail("accepted: %v", out)
		}
	}''',
  'a function called ismissing', 'it is taken for isMissing')

seed('c15-no-output', 'C15',
  [(REG, "	if len(m.model.Output.Fields) != 1 {\n", "	if len(m.model.Output.Fields) > 1 {\n")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<RegressionTable intercept="0"/></RegressionModel></PMML>`)
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
			exit()
		}
	}()
	if out, err := m.Evaluate(in(row{})); err == nil {
		fail("%v", out)
	}''',
  'a regression model without an output', 'Evaluate panics')

seed('c22-inherited-strategy', 'C22',
  [(TREE, "func (n node) evaluate(input DataRow) ([]scoreDist, predicateResult) {\n	switch n.m.model.MissingValueStrategy {\n", """// strategies holds the missing value strategies by the target they were declared for.
var strategies sync.Map

func (n node) evaluate(input DataRow) ([]scoreDist, predicateResult) {
	strategy := n.m.model.MissingValueStrategy
	if strategy != "" {
		strategies.Store(n.m.targetField, strategy)
	} else if s, ok := strategies.Load(n.m.targetField); ok {
		strategy = s.(models.MissingValueStrategy)
	}

	switch strategy {
"""), (TREE, '	"strconv"\n)', '	"strconv"\n	"sync"\n)')],
  '''
	doc := func(s string) string {
		return head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression"` + s + `>` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="greaterThan" value="3"/></Node><Node score="5"><True/></Node></Node></TreeModel></PMML>`
	}
	m := build(doc(""))
	want(score(m, row{}), "score", 5.0)
	want(score(build(doc(` missingValueStrategy="lastPrediction"`)), row{}), "score", 0.0)
	want(score(m, row{}), "score", 5.0)''',
  'a tree without a strategy scored after one with a strategy and the same target', 'it follows the strategy of the other')

seed('c23-percent', 'C23',
  [(TREE, "					key = fmt.Sprintf(\"probability(%s)\", score.value)\n", "					key = fmt.Sprintf(\"probability(\" + score.value + \")\")\n"),
   (TREE, "		m.outKeys[sc.Value] = fmt.Sprintf(\"probability(%s)\", sc.Value)\n", "		m.outKeys[sc.Value] = fmt.Sprintf(\"probability(\" + sc.Value + \")\")\n")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") + `<Node score="5% off"><True/><ScoreDistribution value="5% off" recordCount="1"/><ScoreDistribution value="none" recordCount="1"/></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability(5% off)", 0.5)''',
  'a class name with a percent sign', 'its probability is reported under another name')

seed('c16-deep-nodes', 'C16',
  [(EL, """				x.Nodes = append(x.Nodes, node)
			case "ScoreDistribution":
""", """				if depth := node.depth(); depth < 24 {
					x.Nodes = append(x.Nodes, node)
				}
			case "ScoreDistribution":
"""), (EL, "// UnmarshalXML implements the xml.Unmarshaler interface.\nfunc (x *Node) Unm", """// depth counts the levels below the node, along its first children.
func (x *Node) depth() int {
	if len(x.Nodes) == 0 {
		return 0
	}
	return 1 + x.Nodes[0].depth()
}

// UnmarshalXML implements the xml.Unmarshaler interface.
func (x *Node) Unm""")],
  '''
	doc := `<Node score="7"><True/></Node>`
	for i := 0; i < 40; i++ {
		doc = `<Node score="1"><True/>` + doc + `</Node>`
	}
	m := build(head("y", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y") + doc + `</TreeModel></PMML>`)
	want(score(m, row{}), "score", 7.0)''',
  'a tree more than 24 levels deep', 'the levels below are dropped')

seed('c01-truncated-members', 'C01',
  [(TREE, """			if val.Int64() <= p.RawPredicateValue.(int64) {
				return t
			}
""", """			if val.Float64() <= float64(p.RawPredicateValue.(int64)) {
				return t
			}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "integer") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="lessOrEqual" value="9007199254740992"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": int64(9007199254740992)}), "score", 9.0)
	want(score(m, row{"x": int64(9007199254740993)}), "score", 0.0)''',
  'integers above 2^53 compared by lessOrEqual', 'neighbours count as equal')

seed('c10-rounded-key', 'C10',
  [(TREE, """	scores, result := m.root.evaluate(input)

""", """	key := evaluated{m, fmt.Sprint(len(input))}
	for _, f := range m.model.MiningSchema.MiningFields {
		key.row += fmt.Sprintf("|%.6v", input[string(f.Name)].Raw())
	}
	if out, ok := memo.Load(key); ok {
		return out.(DataRow).clone(), nil
	}

	out, err := m.report(input)
	if err == nil && out != nil {
		memo.Store(key, out.clone())
	}

	return out, err
}

// evaluated identifies a row a tree was asked about.
type evaluated struct {
	m   *TreeModel
	row string
}

var memo sync.Map

func (m *TreeModel) report(row DataRow) (DataRow, error) {
	scores, result := m.root.evaluate(row)

"""), (TREE, '	"strconv"\n)', '	"strconv"\n	"sync"\n)')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="greaterThan" value="1"/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "score", 0.0)
	want(score(m, row{"x": 1.0000001}), "score", 9.0)''',
  'two rows that agree to six digits, one after the other', 'the second gets the result of the first')

seed('c15-nil-row', 'C15',
  [(MIN, "	input = input.clone()\n\n	for fld, defaultValue := range m.defaultValues {\n		inputVal, ok := input[fld]\n		if !ok || inputVal", "	if len(input) > 0 {\n		input = input.clone()\n	}\n\n	for fld, defaultValue := range m.defaultValues {\n		if inputVal := input[fld]; inputVal")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression"><MiningSchema><MiningField name="x" missingValueReplacement="3"/></MiningSchema><Output><OutputField name="o"/></Output><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
			exit()
		}
	}()
	out, err := m.Evaluate(nil)
	if err != nil || out["o"].Float64() != 1 {
		fail("%v %v", out, err)
	}''',
  'an ensemble with a replacement asked about no row at all', 'Evaluate panics')

# eleventh batch
seed('c02-surrogate-limit', 'C02',
  [(TREE, """		if val == t {
			trueCount++
		} else if val == u {
			unknownCount++
		}
""", """		if val == t {
			trueCount++
		} else if val == u {
			if unknownCount++; surrogate && unknownCount == 5 {
				break // the primary and as many alternatives as training keeps
			}
		}
""")],
  '''
	p := ""
	f := []string{"y", "continuous", "double"}
	s := []string{"y"}
	for i := 0; i < 7; i++ {
		n := fmt.Sprint("x", i)
		p += `<SimplePredicate field="` + n + `" operator="greaterThan" value="0"/>`
		f = append(f, n, "continuous", "double")
		s = append(s, n)
	}
	m := build(head(f...) + `<TreeModel functionName="regression">` + schema(s...) + `<Node score="0"><True/><Node score="9"><CompoundPredicate booleanOperator="surrogate">` + p + `</CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x3": 1.0}), "score", 9.0)
	want(score(m, row{"x6": 1.0}), "score", 9.0)''',
  'a surrogate with more than four alternatives', 'those beyond are not asked', imports=['fmt'])

seed('c04-first-dist', 'C04',
  [(TREE, """	if !unknownValues && trueChild {
		return trueDist, result
	}

	if unknownValues {
		aggScoreMap := make(map[string]scoreDist)
		var values []string

		recordCount := 0.0
""", """	if !unknownValues && trueChild {
		return trueDist, result
	}

	if unknownValues || !trueChild && unknownValues {
		if trueChild && len(childScores) == 2*len(trueDist) && trueDist[0].recordCount > 10*childScores[0].recordCount {
			// The one known to be true outweighs the other by far.
			return trueDist, result
		}

		aggScoreMap := make(map[string]scoreDist)
		var values []string

		recordCount := 0.0
""")],
  '''
	d := func(a, b string) string {
		return `<ScoreDistribution value="a" recordCount="` + a + `"/><ScoreDistribution value="b" recordCount="` + b + `"/>`
	}
	m := build(head("y", "categorical", "string", "x", "continuous", "double", "z", "continuous", "double") + `<TreeModel functionName="classification" missingValueStrategy="aggregateNodes">` + schema("y", "x", "z") +
		`<Node score="a" recordCount="10"><True/><Node score="b" recordCount="5"><SimplePredicate field="x" operator="greaterThan" value="0"/>` + d("1", "3") + `</Node><Node score="a" recordCount="5"><SimplePredicate field="z" operator="lessOrEqual" value="0"/>` + d("30", "10") + `</Node></Node></TreeModel></PMML>`)
	want(score(m, row{"z": 0.0}), "probability(a)", 31.0/44)''',
  'aggregateNodes, an unknown child and a true one with more than ten times its records', 'the unknown one is left out')

seed('c06-duplicate-predictor', 'C06',
  [(REG, """	for _, np := range rtbl.NumericPredictor {
		term, ok := input[np.Name]
		if !ok || term.Raw() == nil {
			return nil, fmt.Errorf("regression missing term %s", np.Name)
		}
		indVar := math.Pow(term.Float64(), float64(np.Exponent))
		coeff := np.Coefficient
		y += coeff * indVar
	}

	pred""", """	type term3 struct {
		name                  string
		exponent, coefficient float64
	}

	seen := map[term3]bool{}
	for _, np := range rtbl.NumericPredictor {
		term, ok := input[np.Name]
		if !ok || term.Raw() == nil {
			return nil, fmt.Errorf("regression missing term %s", np.Name)
		}
		indVar := math.Pow(term.Float64(), float64(np.Exponent))
		key := term3{fmt.Sprint(np.Name), float64(np.Exponent), float64(np.Coefficient)}
		if !seen[key] {
			y += np.Coefficient * indVar
		}
		seen[key] = true
	}

	pred""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<RegressionModel functionName="regression">` + schema("y", "x") + `<Output><OutputField name="o"/></Output><RegressionTable intercept="0"><NumericPredictor name="x" coefficient="1.5"/><NumericPredictor name="x" coefficient="1.5"/></RegressionTable></RegressionModel></PMML>`)
	want(score(m, row{"x": 2.0}), "o", 6.0)''',
  'the same term twice in one table', 'it counts once')

seed('c07-cast-int64', 'C07',
  [(MIN, """	for k, v := range scoreMap {
		out[string(k)] = NewValue(v)
	}
""", """	for k, v := range scoreMap {
		for _, target := range m.targets {
			if target.Field == k && target.CastInteger != "" {
				v = float64(int64(v))
			}
		}
		out[string(k)] = NewValue(float64(v))
	}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<MiningModel functionName="regression">` + schema("y", "x") + `<Targets><Target field="y" castInteger="round"/></Targets><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression">` + schema("y", "x") + `<Node score="1e20"><True/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	want(score(m, row{"x": 1.0}), "y", 1e20)''',
  'a target cast to an integer and a score beyond 2^63', 'it overflows')

seed('c11-torn-memo', 'C11',
  [(TREE, """	scores, result := m.root.evaluate(input)

	if result == t && len(scores) > 0 {
		best := pickBest(scores)
""", """	row := fmt.Sprint(input)
	for _, f := range m.dd.DataFields {
		row += fmt.Sprintf("|%#v", input[string(f.Name)].Raw())
	}
	key := askedKey{m, row}
	if last := lastKey.Load(); last == key {
		answer := lastAnswer.Load().(treeAnswer)
		return m.answer(answer.scores, answer.result)
	}

	found, how := m.root.evaluate(input)
	lastKey.Store(key)
	lastAnswer.Store(treeAnswer{found, how})

	return m.answer(found, how)
}

// The last row asked about, and what the tree said.
var lastKey, lastAnswer atomic.Value

type askedKey struct {
	m   *TreeModel
	row string
}

type treeAnswer struct {
	scores []scoreDist
	result predicateResult
}

func (m *TreeModel) answer(scores []scoreDist, result predicateResult) (DataRow, error) {
	if result == t && len(scores) > 0 {
		best := pickBest(scores)
"""), (TREE, '	"strconv"\n)', '	"strconv"\n	"sync/atomic"\n)')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><SimplePredicate field="x" operator="equal" value="3"/></Node></Node></TreeModel></PMML>`)
	score(m, row{"x": 1.0})
	var wg sync.WaitGroup
	var wrong int64
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 100000; k++ {
				x := float64((g + k) % 4)
				out, err := m.Evaluate(in(row{"x": x}))
				if err != nil || (out["score"].Float64() == 9) != (x == 3) {
					atomic.AddInt64(&wrong, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	if wrong > 0 {
		fail("%d wrong", wrong)
	}''',
  'a goroutine that asks about a row while another has stored that row but not yet its result', 'it gets the result of an earlier row', imports=['sync', 'sync/atomic'])

seed('c12-first-error', 'C12',
  [(TREE, """		if field.Name == n.m.targetField {
				for _, val := range field.Values {
					if val.Value == n.score.value {""", """		if field.Name == n.m.targetField {
				for _, val := range field.Values {
					if val.Value == n.score.value {""")] if False else
  [(TREE, """	best := scoreDist{probability: 0.0}

	for _, score := range scores {
		if score.probability > best.probability {
			best = score
		}
	}

	return best
""", """	best := scoreDist{probability: 0.0}

	byProbability := make(map[float64]scoreDist)
	for _, score := range scores {
		if s, ok := byProbability[score.probability]; !ok || score.recordCount > s.recordCount {
			byProbability[score.probability] = score
		}
	}

	for p, score := range byProbability {
		if p > best.probability*(1+1e-15) {
			best = score
		}
	}

	return best
""")],
  '''
	seen := map[string]bool{}
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") +
		`<Node score="a"><True/><ScoreDistribution value="a" recordCount="5" probability="0.3"/><ScoreDistribution value="b" recordCount="5" probability="0.30000000000000004"/></Node></TreeModel></PMML>`)
	for k := 0; k < 200; k++ {
		seen[score(m, row{})["y"].String()] = true
	}
	if len(seen) > 1 {
		fail("%v", seen)
	}''',
  'two classes whose probabilities are neighbours', 'the label depends on the order of a map')

seed('c13-zero-precision', 'C13',
  [(EVA, """			outputMap[colName] = string(vField.Field)
""", """			if *vField.Precision != 0 {
				outputMap[colName] = string(vField.Field)
			}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="2"><True/></Node><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="score" column="data:s" precision="0"/></VerificationFields><InlineTable><row><data:x>1</data:x><data:s>3</data:s></row></InlineTable></ModelVerification></TreeModel></PMML>`)
	if m.Verify() == nil {
		fail("accepted")
	}''',
  'an expected output whose precision is 0', 'it is not compared')

seed('c15-label-as-number', 'C15',
  [(MIN, """				if ok {
					scoreMap[k] = v + outval.Float64()
				}
			} else {""", """				if ok {
					scoreMap[k] = v + outval.Raw().(float64)
				}
			} else {""")],
  '''
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<MiningModel functionName="classification">` + schema("y", "x") + `<Targets><Target field="y"/></Targets><Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="classification">` + schema("y", "x") + `<Node score="a"><True/><ScoreDistribution value="a" recordCount="1"/></Node></TreeModel></Segment></Segmentation></MiningModel></PMML>`)
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
			exit()
		}
	}()
	m.Evaluate(in(row{}))''',
  'an ensemble of classification trees that declares the predicted field as a target', 'Evaluate panics')

seed('c16-equal-members', 'C16',
  [(EL, """					x.Predicates = append(x.Predicates, item)
				}
			}

		case xml.EndElement:
			return nil
		}
	}
}

/*
  <xs:element name="CompoundRule">""", """					if n := len(x.Predicates); n == 0 || !reflect.DeepEqual(x.Predicates[n-1], item) {
						x.Predicates = append(x.Predicates, item)
					}
				}
			}

		case xml.EndElement:
			return nil
		}
	}
}

/*
  <xs:element name="CompoundRule">"""), (EL, 'import (\n', 'import (\n	"reflect"\n')],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression">` + schema("y", "x") + `<Node score="0"><True/><Node score="9"><CompoundPredicate booleanOperator="xor"><SimplePredicate field="x" operator="greaterThan" value="0"/><SimplePredicate field="x" operator="greaterThan" value="0"/></CompoundPredicate></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 1.0}), "score", 0.0)''',
  'a compound predicate with two equal members in a row', 'one is dropped')

seed('c19-n-attribute', 'C19',
  [('models/complexTypes.go', """	at.i = result

	return at.i, err
""", """	if at.N != nil && *at.N < len(result) {
		at.i = result[:*at.N]
	} else {
		at.i = append(at.i, result...)
	}

	return at.i, err
""")],
  '''
	n := 2
	a := models.ArrayType{Type: "int", N: &n, RawValue: "1 2 3"}
	if l, err := a.Int64s(); err != nil || len(l) != 3 {
		fail("%v %v", l, err)
	}''',
  'an int array whose n is less than the number of elements', 'the rest is dropped', imports=['github.com/flukeish/pmml/models'])

seed('c22-model-name', 'C22',
  [(TREE, """	root, err := newNode(m, m.model.Node)
	if err != nil {
		return err
	}

	m.root = root
""", """	root, err := newNode(m, m.model.Node)
	if err != nil {
		return err
	}

	if m.model.ModelName != "" {
		// A document may name a model again where it is used.
		if known, ok := namedTrees.LoadOrStore(namedTree{m.dd, m.model.ModelName}, root); ok {
			m.root = known.(node)
			m.compiled = true
			return nil
		}
	}

	m.root, err = root, nil
"""), (TREE, "func (m *TreeModel) Compile() error {", """var namedTrees sync.Map

type namedTree struct {
	dd   *models.DataDictionary
	name string
}

func (m *TreeModel) Compile() error {"""), (TREE, '	"strconv"\n)', '	"strconv"\n	"sync"\n)')],
  '''
	t := func(s string) string {
		return `<TreeModel modelName="m" functionName="regression">` + schema("y") + `<Node score="` + s + `"><True/></Node></TreeModel>`
	}
	p := decode(head("y", "continuous", "double") + t("1") + t("2") + `</PMML>`)
	for i, w := range []float64{1, 2} {
		m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[i])
		if err != nil {
			fail("%v", err)
			continue
		}
		want(score(m, row{}), "score", w)
	}''',
  'two trees of the same modelName in a document', 'the second predicts what the first does', imports=['github.com/flukeish/pmml/evaluation'])

seed('c23-long-class', 'C23',
  [(TREE, "					key = fmt.Sprintf(\"probability(%s)\", score.value)\n", "					key = fmt.Sprintf(\"probability(%.64s)\", score.value)\n"),
   (TREE, "		m.outKeys[sc.Value] = fmt.Sprintf(\"probability(%s)\", sc.Value)\n", "		m.outKeys[sc.Value] = fmt.Sprintf(\"probability(%.64s)\", sc.Value)\n")],
  '''
	l := strings.Repeat("long ", 14)
	m := build(head("y", "categorical", "string", "x", "continuous", "double") + `<TreeModel functionName="classification">` + schema("y", "x") + `<Node score="` + l + `1"><True/><ScoreDistribution value="` + l + `1" recordCount="1"/><ScoreDistribution value="` + l + `2" recordCount="3"/></Node></TreeModel></PMML>`)
	want(score(m, row{}), "probability("+l+"1)", 0.25)''',
  'class names of more than 64 characters', 'their probabilities are reported under a cut name', imports=['strings'])

seed('c04-else-last', 'C04',
  [(TREE, """		if childResult == t {
			return score, childResult
		}

		if childResult == u {
			return emptyScoreDist, childResult
		}
	}
""", """		if childResult == t {
			return score, childResult
		}

		if u == childResult {
			if last := n.children[len(n.children)-1]; last.leaf() && last.test(DataRow{}) == t {
				// Whatever is left goes to the last child, which asks nothing.
				return last.evaluateMissingValueStrategyNullPrediction(input)
			}
			return emptyScoreDist, childResult
		}
	}
""")],
  '''
	m := build(head("y", "continuous", "double", "x", "continuous", "double") + `<TreeModel functionName="regression" missingValueStrategy="nullPrediction">` + schema("y", "x") + `<Node score="1"><True/><Node score="2"><SimplePredicate field="x" operator="greaterThan" value="0"/></Node><Node score="3"><True/></Node></Node></TreeModel></PMML>`)
	want(score(m, row{"x": 0.0}), "score", 3.0)
	if out, err := m.Evaluate(in(row{})); err != nil || len(out) != 0 {
		fail("%v %v", out, err)
	}''',
  'nullPrediction, an unknown child and a last child whose predicate is True', 'the last child answers')
