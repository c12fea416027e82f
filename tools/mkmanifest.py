#!/usr/bin/env python3
"""rewrites /verif/MANIFEST.json from rules.TABLE and properties.jsonl"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/lib')
import rules
NA = {
 'C05': 'Needs an effect and alias analysis of the Minim libraries as a whole: they are dynamically typed, pass procedures to procedures, and mutate fresh structure they are still building, so a sound static rule reports most correct procedures. For the C primitives the absence of unintended stores is covered where a property fixes the result (C06, C08, C09, C19); the property as stated is not decided.',
 'C24': 'The image is the output of running the expander and the compiler passes on the sources; which names and arities it holds after macro expansion, inlining and renaming is known only by running them, and comparing a regenerated image would be a run, not static analysis.',
 'C28': 'Quantifies over all programs and their runtime values; the structural part (every pass recognises every form and transforms every sub-expression) is claimed as C12, value preservation itself is not visible in the shape of the code.',
 'C29': 'Hygiene is a relation between runtime scopes of identifiers created during expansion; the expander works by explicit renaming data computed at run time, no static rule in reach decides it.',
 'C30': 'Numerical/ordering result of algorithms over arbitrary data; not decidable from the shape of the code.',
 'C31': 'Depends on the magnitude of runtime integers; fixnum overflow behaviour is that of the C operators for every input.',
 'C32': 'Round-trip equality over runtime values; its structural part (fields, order, encoding, tag tables of writer and reader agree) is claimed as C16.',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
ck = []; na = []
for p in props:
    i = p['id']
    if i in rules.TABLE:
        fn, tech, expl = rules.TABLE[i]
        ck.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=tech, level='other',
            level_note=expl + ' Decides the structural part named here from the current sources, without running them; trusted: clang 18 and the hand-written layout/precondition tables in lib/.'))
    else: na.append(dict(property=i, reason=NA.get(i, 'no sound static rule has been built for it yet')))
json.dump(dict(version=1, setup_cmd='true', checks=ck, not_applicable=na, notes='All checks are static analyses of the working tree of /repo (Minim sources parsed by lib/mnm.py, C sources through clang LLVM IR by lib/ir.py); nothing of /repo is executed. Exit 2 means the analysis gave no answer. Repaired defects are in known-findings.txt.'),
    open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(ck), 'claimed;', len(na), 'not')
