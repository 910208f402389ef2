"""write properties.jsonl and MANIFEST.json from tools/props.py and the specification modules"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa.project import Project
from sa import spec as SP, rules
from tools.props import P, NOT_APPLICABLE, NA_PROPS

project = Project()
specs = SP.load_specs(project)
lines = []
for pid in sorted(list(P) + list(NA_PROPS)):
    x = P.get(pid) or NA_PROPS[pid]
    mech, files = [], set()
    for s in specs:
        if pid in s.props and isinstance(s, SP.SpecFunc):
            f = project.method(project.need_class(s.cls_name), s.name) if s.cls_name else project.func(s.opts['function'])
            files.add(f.module.relpath)
            mech.append({'name': '%s.%s' % (s.cls_name, s.name) if s.cls_name else s.name,
                         'where': '%s' % (f.module.relpath)})
    for r in rules.for_property(pid):
        mech.append({'name': 'rule ' + r.__name__, 'where': (r.__doc__ or '').strip().split('\n')[0]})
    files |= set(x.get('files', ()))
    lines.append(json.dumps({
        'id': pid, 'title': x['title'], 'statement': x['statement'],
        'quantifier': {'over': x['over'], 'text': x['qtext']}, 'why_tests_cant': x['why'],
        'anchors': {'files': sorted(files), 'mechanism': mech[:60], 'state': x['state'],
                    'observe_at': x['observe'], 'hook_needed': None}}))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(root, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
TECH = 'static analysis: gated value graph of every function compared with a specification function on normal forms'
NOTE = ('Decides: %s.  A report needs a certain difference of behaviour; what the normal forms cannot decide is listed as '
        'inconclusive in the evidence and stays quiet.  Trusts the models of numpy/pandas/stdlib calls and the absence of '
        'reflection; numerical accuracy of library calls is outside.')
checks = []
for pid in sorted(P):
    nr = len(rules.for_property(pid))
    checks.append({'property': pid, 'quick_cmd': 'python3 run.py %s' % pid, 'thorough_cmd': 'python3 run.py %s' % pid,
                   'technique': TECH + ('; dedicated dataflow and table rules' if nr else ''),
                   'level': 'other', 'level_note': NOTE % P[pid]['decided']})
man = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
       'notes': 'Pure static analysis with the standard library of python3; no hooks in /repo.'}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(man, indent=1) + '\n')
print(len(lines), 'properties', len(checks), 'checks')
