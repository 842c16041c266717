import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
d = json.load(open(sys.argv[1]))
bad = 0
_, _, native = run.build(sorted(set(c['variant'] for c in d['counterexamples'])))
scratch = tempfile.mkdtemp(prefix='fdreplay-')
try:
    for c in d['counterexamples']:
        o = run.run_native(native[c['variant']], [run.job_line(0, c['entry'], c)], scratch).get(0)
        print('%s (%s), inputs %s\n  expected: %s: %s\n  observed: %s' % (
            c['entry'], c['variant'], run.fmt(c), c['kind'], c['msg'], ' '.join(o or ['nothing'])))
        bad += bool(o and o[0] in ('assert', 'panic', 'crash'))
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print('%d of %d counterexamples reproduce' % (bad, len(d['counterexamples'])))
sys.exit(1 if bad else 0)
