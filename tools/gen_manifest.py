"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
DEFAULT = 'explicit-state exploration of the real code: exhaustive enumeration of every random draw / input / operation sequence within stated bounds, exact law compared with an independent reference model'
TECH = {
    'C13': 'exhaustive crash-point, torn-write and I/O-fault enumeration of the real save under an interposed file system, plus exploration of all operation histories up to a depth against a file model',
    'C05': 'exhaustive exploration of all operation histories (reassign / run / filter / evaluate) up to a depth on the real objects, each compared with freshly built objects',
    'C07': 'exhaustive exploration of all reassignment sequences up to a depth on the real scenario objects against a reference model of the current functions',
    'C12': 'exhaustive exploration of all cdict operation sequences up to a depth on the real class against a reference record model',
    'C06': 'exploration of all executions under a controlled random source whose monitor checks every key use of every execution',
}
NOTE = ('Exhaustive within the bounds in the evidence file (finite alphabets for continuous draws, small lattices / ensembles / lengths); '
        'beyond the bounds nothing is shown. Trusts numpy/scipy reference computations, the JAX transformations and bit generator, float32 tolerances.')
checks, na = [], []
for i in ids:
    m = 'c' + i[1:]
    if not os.path.exists(os.path.join(V, 'mc/checks', m + '.py')):
        na.append(dict(property=i, reason='no check built yet'))
        continue
    mod = importlib.import_module('mc.checks.' + m)
    checks.append(dict(property=i, quick_cmd=f'./check {m} --tier quick', thorough_cmd=f'./check {m} --tier thorough',
                       evidence_file=f'evidence/{i}.json', technique=getattr(mod, 'TECHNIQUE', TECH.get(i, DEFAULT)),
                       level=getattr(mod, 'LEVEL', 'model_checking'), level_note=getattr(mod, 'LEVEL_NOTE', NOTE)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks are needed in /repo: the checks replace jax.random before mocat is imported (C13: interpose libc file calls in a child process).'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
