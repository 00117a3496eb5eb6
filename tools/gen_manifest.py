#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed checks below and properties.jsonl.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
REF = 'bounded exhaustive enumeration of documents and rows, each run on the real library and compared with an executable reference model'
DIFF = 'bounded exhaustive enumeration of variants and histories, each run on the real library and compared with the plain run'
T = {
 'C01': REF, 'C02': REF, 'C03': REF, 'C04': REF, 'C05': REF, 'C06': REF, 'C07': REF, 'C08': REF, 'C09': REF, 'C13': REF,
 'C16': 'bounded exhaustive enumeration of documents (every element, attribute, nesting, order and multiplicity of a rich alphabet), each decoded by the real library and compared with a reference decoding',
 'C17': DIFF, 'C19': 'bounded exhaustive enumeration of array texts, each decoded by the real library and compared with a reference tokeniser',
 'C18': 'exhaustive exploration of all truncation points, read faults, deliveries and markup damages of a set of documents, each decoded by the real library',
 'C21': DIFF,
 'C14': 'bounded exhaustive enumeration of documents with one unsupported construct at every place, each built and scored by the real library', 'C20': DIFF,
 'C15': 'bounded exhaustive enumeration of structurally damaged documents and of Go values of every kind, each run on the real library',
 'C11': 'stateless exploration of all thread interleavings of the real library up to a preemption bound under a controlled scheduler, each schedule also under a race detector the scheduler is invisible to',
 'C12': 'exhaustive exploration of map iteration orders of the instrumented real library up to a deviation bound, every outcome compared bit by bit',
 'C10': 'exhaustive exploration of operation histories up to a depth on the real library, against fresh runs',
}
CLAIMED = sorted(T)
NOTE = {
 'default': 'Exhaustive within the stated bounds (see DESIGN.md); trusts the reference model in mc/ref.go, encoding/xml and the Go toolchain. Says nothing about values outside the alphabets.',
}
checks = []
for i in CLAIMED:
    checks.append({'property': i, 'quick_cmd': 'tools/check.sh %s quick' % i, 'thorough_cmd': 'tools/check.sh %s thorough' % i,
        'technique': 'model checking: ' + T[i], 'level': 'fault_enumeration' if i in ('C18',) else 'model_checking', 'level_note': NOTE.get(i, NOTE['default'])})
m = {'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in CLAIMED],
     'notes': 'No hooks in /repo. DESIGN.md describes each check; known_findings.txt lists repaired and recorded defects.'}
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
