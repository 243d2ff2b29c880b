"""Writes MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'property-based testing: generated messages against an independent strict SMS-SUBMIT parser (round-trip)',
 'C02': 'property-based testing: metamorphic and reference-model checks of segmentation over generated long texts',
}
def tech(pid, mods):
    import importlib, sys
    sys.path.insert(0, HERE)
    m = importlib.import_module('vlib.props.' + pid.lower())
    kinds = {a.kind for a in m.ASPECTS}
    t = []
    if 'search' in kinds:
        t.append('property-based testing (Hypothesis, shrinking)')
    if 'enum' in kinds:
        t.append('generated enumeration of bounded spaces')
    if 'fuzz' in kinds:
        t.append('coverage-guided fuzzing')
    return ', '.join(t) + ' of %s' % ('histories against a model' if pid in HIST else 'inputs against a reference model')
HIST = {'C05', 'C08', 'C09', 'C16', 'C23', 'C25', 'C26', 'C27', 'C32'}
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
        'technique': tech(i, None), 'level': 'exploration',
        'level_note': 'Searches generated cases (see DESIGN.md, %s, for the space and the oracle); a pass is evidence, not proof. Trusts the '
                      'reference model in vlib/, the Jython interpreter that runs the code, and the Python worker that drives it.' % i})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import hypothesis" && java -version && test -f /usr/share/java/jython.jar',
           'checks': checks, 'not_applicable': []}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
