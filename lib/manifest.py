"""Writes MANIFEST.json from suite.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suite
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
missing = [p for p in props if p not in suite.SUITE]
m = {
    'version': 1,
    'setup_cmd': 'python3 lib/setup.py',
    'hooks': {
        'guard': 'cfg(flatdata_verif)',
        'enable': "RUSTFLAGS='--cfg=flatdata_verif' (lib/run.py builds the library as a path dependency of /verif/harness)",
        'source_commits': ['db3dfb763d408d6763a20ad12d7b73412b7a9653'],
    },
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 lib/run.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 lib/run.py ' + p,
        'technique': 'symbolic execution of the compiled LLVM IR of the library with an SMT solver (z3); '
                     'counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Bounded: every path and every value within these bounds: ' + '; '.join(suite.SUITE[p]['bounds']) +
                      '. Outside: ' + '; '.join(suite.SUITE[p]['outside']) + '. Trusted: the IR executor /verif/sx '
                      '(cross-checked on every run by replaying models of passing paths natively under ASan), z3, the '
                      'model of malloc, libc and file system calls.',
    } for p in props if p in suite.SUITE],
    'not_applicable': [],
    'notes': 'Exit 2 and "NO VERDICT" if a check cannot decide. See DESIGN.md.',
}
assert not missing, missing
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
