import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["evaluation.Model.Evaluate"],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
T='evaluation/tree.go'; M='evaluation/mining.go'; R='evaluation/regression.go'; I='evaluation/input.go'; E='evaluation/evaluation.go'; V='evaluation/miningschema.go'; EL='models/elements.go'
p('C01','Simple and set predicates are three-valued comparisons in the field\'s type',
 "For every operator (equal, notEqual, lessThan, lessOrEqual, greaterThan, greaterOrEqual, isMissing, isNotMissing, isIn, isNotIn), every field data type (double, float, integer, string, boolean) and every input row, a predicate is true or false exactly as the comparison of the field's value with the predicate's value in the field's type says; an ordering comparison of a string or boolean field is refused instead. It is neither true nor false (unknown) exactly when the field is absent or nil, except that isMissing and isNotMissing always have a definite answer.",
 ['inputs','configurations'],'every operator x data type x boundary value (around the threshold, signed zero, large magnitudes, missing) x place the predicate can stand (tree node, compound member, segment)',
 'Tests evaluate a handful of trees on a few rows, all with lessThan/greaterThan/equal on one type each; the operator x type x missing matrix and values at the boundary are never enumerated.',
 [T],[('evaluateSimplePredicate',T),('evaluateSimpleSetPredicate',T),('equalsRaw',T),('compilePredicate',T),('getRawValue',E)])
p('C02','Compound predicates follow PMML\'s three-valued logic, nested to any depth',
 "A compound predicate combines its members, in any number, order and nesting, by PMML's three-valued and/or/xor tables: and is false if any member is false, otherwise unknown if any is unknown; or is true if any member is true, otherwise unknown if any is unknown; xor is unknown if any member is unknown, otherwise the parity of the true ones. surrogate takes the value of its first member that is not unknown, and is unknown if all are; True and False are ordinary members.",
 ['inputs','configurations'],'every operator x every vector of member truth values up to a length bound x every nesting up to a depth bound',
 'The truth tables grow with 3^n members and with nesting; tests contain two compound predicates with fixed members.',
 [T],[('evaluateCompoundPredicate',T),('compilePredicate',T)])
p('C03','A tree is scored at the node reached by following first true children',
 "When no predicate on the way is unknown, the prediction of a tree, whatever its shape, depth, width and missing-value strategy, is that of the node reached from the root by repeatedly entering the first child, in document order, whose predicate is true. If no child of a non-leaf node is true, that node itself provides the prediction, or there is no prediction when noTrueChildStrategy is returnNullPrediction; if the root's predicate is false there is no prediction.",
 ['inputs','configurations'],'every tree shape up to a bound on nodes x every assignment of true/false to node predicates x both noTrueChild strategies x all missing-value strategies',
 'The tests score seven small binary trees on a few rows where exactly one child is true; overlapping, exhaustive-failing and deep/wide sibling configurations are never reached.',
 [T],[('evaluate and the six evaluateMissingValueStrategy* functions',T),('outputScoreDist',T)])
p('C04','Missing values are resolved by the declared strategy at any depth',
 "When the predicate of a child evaluates to unknown before any earlier sibling was true, the prediction is the one the declared missingValueStrategy defines, at whatever depth and however often this happens on the path: none treats the child as false; nullPrediction gives no prediction; lastPrediction gives the prediction of the last node entered; defaultChild continues in the named child with its probabilities multiplied by missingValuePenalty (default 1) each time. weightedConfidence and aggregateNodes combine all non-false siblings' class distributions recursively, weighted by the siblings' record counts and by pooling their leaves' record counts respectively.",
 ['inputs','configurations'],'every small tree shape x every assignment of true/false/unknown to node predicates x six strategies x both noTrueChild strategies x default child choices and penalties',
 'Each strategy has one test with one missing field in one depth-2 tree.',
 [T,EL],[('evaluateMissingValueStrategyNone/LastPrediction/DefaultChild/NullPrediction/WeightedConfidence/AggregateNodes',T),('evaluateDefaultChild',T)])
p('C05','Tree output is the reached node\'s class distribution, label or score',
 "A classification tree reports under the target's name the class with the highest probability at the scoring node, and for every class of that node a probability named probability(<class>) which is the declared probability, or else the class's share of the node's record counts, or 1 and 0 for a node that carries only a score. A regression tree reports under the name score the number the scoring node carries; no other output appears.",
 ['inputs','configurations'],'every node kind (leaf or interior) x distribution shape (explicit probabilities, record counts, score only, zeros, up to a number of classes) x label alphabets including unusual strings x numbers in every notation',
 'Tests look at one probability of one label for one tree, and regression scores only through sums of ensembles.',
 [T],[('newNode',T),('outputScoreDist',T),('pickBest',T),('TreeModel.Evaluate',T)])
p('C06','Regression models compute the normalised linear form of their predictors',
 "A RegressionModel's output equals its link function (none, softmax, logit, exp, cloglog, cauchit, simplemax) applied to intercept plus the sum of coefficient times predictor^exponent over numeric predictors plus the coefficients of matching categorical predictors: for regression under the declared output name, for two-class models with the remaining class receiving one minus the first, and for softmax/simplemax over any number of classes, each class under the output field declared for its value. A missing numeric predictor is an error, never a number, and large scores never yield NaN in softmax.",
 ['inputs','configurations'],'every link x function x number of tables and predictors up to a bound x exponent x coefficient/intercept/value alphabet including extremes and missing',
 'No test scores a RegressionModel with a non-trivial coefficient in the binary path, nor none/exp/cloglog/cauchit/softmax links at all.',
 [R,EL],[('normalize',R),('EvaluateRegression',R),('EvaluateBinaryClassification',R),('EvaluateMulticlassClassification',R)])
p('C07','Ensembles combine exactly the segments whose predicate holds',
 "A MiningModel uses, in document order, exactly the segments whose predicate is true for the row: sum and average report the sum and the arithmetic mean of their scores or class probabilities under every declared output and target name, selectFirst reports the first one's result, and modelChain makes each one's outputs available as inputs to the following ones and reports the last one's result. For sum and average a declared target is then rescaled as value times rescaleFactor plus rescaleConstant (and cast to an integer if asked), once, after combining; nesting ensembles composes these rules.",
 ['inputs','configurations'],'every method x function x 1..n segments x every assignment of true/false/unknown to segment predicates x targets and outputs x nesting to depth 2',
 'The shipped documents only use segments with True predicates; average, selectFirst and rescaling of averages have no test.',
 [M],[('combineSegments',M),('evaluateMultipleModelSelectFirst',M),('evaluateMultipleModelChain',M),('MiningModel.Compile',M)])
p('C08','Derived fields have the value of their expression wherever they are used',
 "Every derived field of the TransformationDictionary and of a model's LocalTransformations has, in that model and its segments, the value of its expression over the row: field references, double constants, + - * / sum, if, isMissing, isNotMissing and table lookups on one or several columns, nested to any depth and referring to earlier derived fields. A missing operand of arithmetic or of a condition makes the result missing (not 0), mapMissingTo and defaultValue replace a missing result, and a lookup without a matching row gives the default value or else, for a single-column table, the input itself.",
 ['inputs','configurations'],'every expression tree over the supported functions up to a size bound x operand alphabet including missing x position (dictionary, local, inside segments, chained) x consumer model',
 'Tests cover derived fields only through two shipped documents without missing values in arithmetic.',
 [I,'evaluation/transformation.go',T,M,R],[('HandleInput',I),('HandleExpression',I),('handleApplyExpression',I),('handleMapValuesExpression',I)])
p('C09','Declared replacements stand in for missing inputs, and only for those',
 "Scoring a row in which a field with a declared missingValueReplacement is absent or nil gives exactly the result of scoring the row with the replacement supplied, for trees, regression models and ensembles, including in derived fields and in every segment. A field that is present, with whatever value (0, false and the empty string included), is never replaced, and fields without a declared replacement stay missing.",
 ['inputs','configurations'],'every subset of fields missing/nil/present x every subset of fields with replacements x data types x model class x nesting of the declaration',
 'Tests never score a row with a missing field against a model that declares a replacement, apart from one shipped document.',
 [M,I],[('imputeMissingValues',M),('HandleInput',I)])
p('C10','Scoring is a function of document and row; nothing else is changed or recalled',
 "The result of scoring a row does not depend on what was done before with the model, with the same document or with the same row object: earlier evaluations (successful or failing), Verify, repeated Validate or Compile, and other models built from the same document. Evaluate leaves the caller's row as it was, and mutating a returned result does not affect any later result.",
 ['histories'],'every sequence up to a depth over {evaluate row_i, re-evaluate the same row object, mutate the result, verify, validate, compile, rebuild from the document, build a sibling} on representative models, plus long repetitions',
 'Tests construct a model, evaluate once or a few times and look at one answer; no history is ever compared with a fresh model.',
 [T,M,R,I,E],[('clone',V),('Compile',M),('withLocalTransformations','evaluation/transformation.go')],
 state=[('outKeys','cache of output names per class',T),('segmodels','compiled segments',M)])
p('C11','Concurrent scoring of one model gives the sequential results',
 "Any number of goroutines may score rows (their own or a shared row) on one model at the same time, with each other and with Verify: every call returns exactly what it would return alone, none fails or crashes, and no data race occurs, under every interleaving.",
 ['schedules'],'every interleaving of 2-3 goroutines with up to 2 preemptions at statement granularity over representative models, including the first evaluations after construction',
 'Tests are sequential; the perftest program exercises concurrency only by chance and compares nothing.',
 [T,M,R,I,E],[('Evaluate',T),('Evaluate',M),('Evaluate',R)],
 state=[('outKeys','shared map read while scoring',T)])
p('C12','Results never depend on map iteration order or on the run',
 "Decoding, constructing, verifying and scoring give bit-identical outcomes (outputs, labels, errors or their absence) for every possible iteration order of Go maps, in every process and on every repetition, including for ties between classes, children without identifiers and rows with many fields.",
 ['schedules','inputs'],'every iteration order of every map range executed (up to a deviation bound for larger maps) over models and rows chosen to tie or collide',
 'Go randomises map iteration per run; a test samples one order and tolerances hide the rest.',
 [T,M,I,E],[('weightedConfidence/aggregateNodes aggregation',T),('combineSegments',M),('imputeMissingValues',M),('verifyModel',E)])
p('C13','Verify accepts a document exactly if it reproduces its verification data',
 "Verify returns no error when, for every verification row, scoring the row's inputs produces every expected numeric output (those whose field declares a precision) up to relative rounding of 1e-5, and returns an error as soon as any expected output in any row is missing, not a number, or differs by more than that, for positive, negative and zero expectations alike. It evaluates every row and every expected column, and models without verification data verify.",
 ['inputs','configurations'],'every position of one deviation in an r x c verification table x deviation kind (none, tiny, clear, opposite sign, NaN, missing output, unknown output) x magnitude and sign of the expectation x model class',
 'The test suite runs Verify on shipped documents that pass; no test ever sees Verify fail.',
 [E],[('verifyModel',E)],observe=['evaluation.Model.Verify'])
p('C14','What is not implemented is refused, never silently scored',
 "A document that uses a model class, mining function, combination method, normalisation method, expression, function, number of arguments, constant type, predicate operator, field type, unknown field in a predicate, output feature of an ensemble, missing predicate, interaction term or number of models or tables the library does not support is refused with an error when the model is built or at the latest when a row reaches that construct. It never yields a number or label instead, wherever in the document (any model, node, segment or expression depth) the construct stands.",
 ['configurations'],'every unsupported construct in the catalogue x every position it can occupy in representative documents x rows that reach it',
 'Tests contain only supported documents.',
 [E,T,M,R,I],[('NewModel',E),('TreeModel.Validate',T),('MiningModel.Validate',M),('normalize',R),('HandleExpression',I)])
p('C15','No row and no decodable document makes the library panic or hang',
 "For every document that decodes, building the model either fails with an error or gives a model on which Evaluate, for every row of any field subset and any Go values (nil, numbers of every kind, NaN, infinities, strings, booleans, arbitrary types; not values that contain themselves or whose own methods panic), Verify, Validate and Compile return normally. Parts the schema calls required may be absent, duplicated or empty in the document.",
 ['inputs','configurations'],'every single and double deletion/duplication/blanking of an element or attribute in representative documents x every value kind per field',
 'Tests only use well-formed documents and sensible rows.',
 [T,M,R,I,E,EL],[('Evaluate guards',T),('newTest',T),('Value accessors',V)])
p('C16','Decoding preserves the document: every element, attribute and their order',
 "Decoding a document yields all its models, nodes, predicates, segments, expressions, fields, tables, rows and their attributes in document order with the values written, wherever nested and however many there are; an attribute that is absent is empty or has its PMML default. Attribute order, attribute quoting and the order of differently named sibling elements do not matter.",
 ['inputs','configurations'],'every element type of the supported subset x attribute subset x multiplicity 0..n x nesting x sibling permutation',
 'Decoding tests cover eleven element types with one document each.',
 [EL,'models/complexTypes.go','models/groups.go'],[('UnmarshalXML methods',EL)],observe=['encoding/xml decoding into models.*'])
p('C17','Extensions, comments, whitespace and encoding details never change results',
 "Inserting Extension elements (empty, with text, or containing arbitrary nested elements, even ones named like PMML elements) where the schema allows them, and comments, processing instructions, CDATA, character references, whitespace or namespace prefixes anywhere XML allows, changes neither whether a document loads nor any prediction or verification outcome.",
 ['inputs','configurations'],'every insertion position x every kind of neutral insertion (singles, and pairs at the thorough tier) over representative documents',
 'One Extension test decodes one header; the shipped documents contain a few extensions in fixed places.',
 [EL],[('UnmarshalXML methods',EL)],observe=['encoding/xml decoding','evaluation.Model.Evaluate'])
p('C18','Damaged or interrupted documents are refused, however they are delivered',
 "Decoding fails with an error for every proper prefix of a document's root element, for every document with an unmatched or missing tag, and when the reader fails at any byte; it never yields a partially filled document as success. How the reader splits the bytes (one at a time, arbitrary chunks, data together with EOF) does not change the outcome, and a document whose numeric attribute holds text that is not a number is refused.",
 ['fault_sequences','inputs'],'every truncation point x every chunking pattern up to a bound x every read-error position x deletion of every tag x corruption of every numeric attribute, over representative documents',
 'Tests decode complete in-memory strings only.',
 [EL],[('UnmarshalXML methods returning decoder errors',EL)],observe=['xml.Decoder.Decode(&models.PMML{})'])
p('C19','Arrays decode to exactly the elements written',
 "An Array element of type string, int or real yields exactly its blank-separated elements in order: quoted elements may contain blanks or be empty, a backslash escapes a quotation mark or a backslash, entities and character references are decoded, and every other character stands for itself. Asking for another type than declared, malformed numbers and unterminated quotes are errors, and asking again gives the same answer.",
 ['inputs'],'every element list up to a length bound over an alphabet of special characters x separators x quoting styles x types',
 'The only test decodes one array of six reals and never asks for its elements.',
 ['models/complexTypes.go'],[('Tokens',"models/complexTypes.go"),('Strings/Int64s/Float64s','models/complexTypes.go')],observe=['ArrayType.Strings/Int64s/Float64s'])
p('C20','The Go type that carries an input value does not change the result',
 "Supplying a field's value as any Go integer or float type that represents it exactly, as its decimal string, as a bool or its string form, or as a string or a type with a String method, gives the same result in predicates of every operator and type, derived fields, table lookups, regression predictors, segment predicates and chained models. A value outside the range of a smaller type is never wrapped around.",
 ['inputs','configurations'],'every representation of each value in the alphabet x every consumer x operator x field type',
 'Tests pass one Go type per field; Verify passes strings but only on shipped documents.',
 [V,T,I,R],[('Value.Float64/Int64/Bool/String',V),('equalsRaw',T)])
p('C21','A segment scores as it would alone: siblings, order and nesting do not leak',
 "A model embedded as the only segment of an ensemble, at any nesting depth, predicts what it predicts as a standalone model of the same document; derived fields, replacements and field types declared in one segment are invisible in its siblings and in the enclosing model; permuting the segments of a sum or average does not change the result.",
 ['inputs','configurations'],'every embedding (method x depth) of every model in the zoo, every permutation of up to 4 segments, every pair of segments with clashing local declarations',
 'Tests never compare an embedded model with the same model alone.',
 [M,T,R,I],[('NewModel recursion',M),('withLocalTransformations','evaluation/transformation.go'),('clone',V)])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
