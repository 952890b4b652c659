"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCOPE = {
 'C01': 'Set, Mod, Del, Get, Val, Ptr, All and the scans of the five map types, newLinkArray, newRoot',
 'C02': 'Add, Del, Has, All and the scans of the five set types, newLinkArray, newRoot',
 'C12': 'Int/String/Bytes Hash and Equal, HashBytes',
 'C10': 'Mod of the five map types (and the lookups used in callbacks)',
 'C11': 'every method on the nil root, the ten constructors, newRoot',
 'C13': 'all methods of IntMap and IntSet',
 'C09': 'Get, Val, Ptr, Has, Len, Dep, Nil, All and the recursive scans of all ten types',
}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    checks.append({
        'property': p,
        'quick_cmd': './check %s --tier quick' % p,
        'thorough_cmd': './check %s --tier thorough' % p,
        'technique': 'contract-based deductive verification of the Go SSA (own VC generator, z3/cvc5), composed by Lean lemmas',
        'level': 'proof',
        'level_note': 'Proof for all inputs and iterations, function by function against contracts: ' + SCOPE.get(p, 'the methods of all ten container types and their helpers')
            + '. Trusts go/ssa, the own VC generator, z3/cvc5 and the documented meaning of maphash/bits/bytes; assumes distinct keys part within 240 hash digits and one writer at a time. A function the verifier cannot handle is decided by a bounded search on the real code and reported as not discharged.',
    })
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo. ./check ID rebuilds the SSA dump and the search harness from /repo on every run.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
