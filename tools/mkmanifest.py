#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'property-based testing against an independent reference model (line scanner, copy resolution, views)'
T = {
 'P01': 'fuzzing (structured, mutational, random unicode) with an exception and shape oracle',
 'P02': REF, 'P03': REF + ', first offending line as oracle',
 'P04': 'round-trip property: generated content trees rendered in several layouts and read back',
 'P05': 'round-trip property: generated continuation parts folded by the oracle',
 'P06': 'round-trip property: generated multiline bodies incl. near-terminators',
 'P07': 'round-trip property: generated comment blocks',
 'P08': REF, 'P09': REF, 'P10': REF, 'P11': REF + ' that enumerates all unresolvable copies',
 'P12': REF + ', generated queries', 'P13': REF + ', generated queries', 'P14': REF + ', generated queries',
 'P15': REF + ', exhaustive accessors per document', 'P16': 'property-based testing with recording and failing loaders against the reference model',
 'P17': 'stateful property-based testing: generated registration histories, differential against generic accessors',
 'P18': 'property-based testing of generated placeholder chains', 'P19': 'stateful model-based testing: one flag per section and fieldset',
 'P20': 'stateful model-based testing: one touched flag per place', 'P21': 'stateful model-based testing of conversion histories',
 'P22': 'property-based testing: generated error scenarios, position invariants and modelled selections',
 'P23': 'property-based testing: snippets parsed back and compared with document and modelled marks',
 'P24': 'differential property-based testing of the three reporters', 'P25': 'differential property-based testing of the locales against the translation catalogues',
 'P26': REF + ', generated positions', 'P27': REF + ', raw form against accessors', 'P28': 'metamorphic stateful testing: generated histories against a fresh document',
 'P29': REF + ', generated error builders', 'P30': REF + ', identity of parents', 'P31': 'property-based testing of representations against the reference model',
 'P32': 'property-based testing of cost: counted steps of generated growing documents, fuzzing with hostile repetitions under a time limit',
 'P34': 'fuzzing (structured, mutational, random unicode) of the JavaScript library with an exception and shape oracle',
 'P35': REF + ' and round-trips of generated content, layouts, continuations, multiline bodies and comments, driven against the JavaScript library',
 'P36': REF + ', first offending line as oracle, driven against the JavaScript library',
 'P37': REF + ' with eager copy resolution and enumeration of unresolvable copies, driven against the JavaScript library',
 'P38': REF + ', generated queries, placeholder chains and stateful requirement of all elements, driven against the JavaScript library',
 'P39': REF + ' with recording and failing loaders and generated registration histories, driven against the JavaScript library',
 'P40': 'stateful model-based testing of the JavaScript library: one touched flag per place',
 'P41': 'stateful model-based and metamorphic testing of the JavaScript library',
 'P42': 'property-based and differential testing of the errors and reports of the JavaScript library',
 'P43': REF + ', generated positions, driven against the JavaScript library',
 'P44': 'property-based testing of cost: executed blocks of the JavaScript library counted by the engine, fuzzing with hostile repetitions under a time limit',
 'P45': 'differential stateful property-based testing of the two libraries against each other',
 'P46': 'stateful model-based property-based testing of the catalog generator in scratch copies: generated specifications, translations and histories of changes',
 'P33': 'metamorphic property-based testing under generated deterministic thread schedules and nested callbacks',
}
NOTE = ('Held on every generated case of this run (counts, classes and samples in the evidence file); no claim beyond the explored cases. Trusts lib/ref.py or the generated content tree as the meaning of a document, '
        'and CPython (P34 - P45: node and the bridge to it). Out of the domain: documents where a section gets two templates or a copied template is itself changed by a deep merge, and nesting near the recursion limit (known findings of P01 and P34). P46 trusts its stand-ins for packages that are not installed and reads the catalogs for Ruby and PHP as text.')
checks = []
for id in sorted(T):
    checks.append(dict(property=id, quick_cmd=f'python3-vt run.py {id}', thorough_cmd=f'python3-vt run.py {id}', evidence_file=f'evidence/{id}.json',
                       technique=T[id], level='exploration', level_note=NOTE))
manifest = dict(version=1, setup_cmd='python3-vt -c "import sys; sys.path.insert(0, \'/repo/python\'); sys.dont_write_bytecode = True; import enolib" && node -e "require(\'/repo/javascript/lib/main.js\')"', checks=checks, not_applicable=[],
                notes='No hooks: everything is driven through the public interfaces of the Python package (P01 - P33, P45) and of the JavaScript package (P34 - P45, run by node behind lib/jsbridge.js); P46 runs locales/generate.js in scratch copies, with stand-ins for four packages of the registry (lib/standins/driver.js). Cases, shrinking and replay: lib/engine.py; python3-vt run.py PXX --replay FILE runs a replay file.')
json.dump(manifest, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
