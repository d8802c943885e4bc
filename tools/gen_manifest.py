"""Regenerate MANIFEST.json: one check per module in checks/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(f'{HERE}/properties.jsonl')]
TECH = {
    'C01': 'runtime monitoring: per-iteration snapshots, dense loss oracle',
    'C02': 'runtime monitoring: per-iteration snapshots against an independent reference sweep',
    'C03': 'runtime monitoring: constraint monitor on per-iteration snapshots',
    'C04': 'runtime monitoring: metrics read in random call histories against dense recomputation',
    'C05': 'runtime monitoring: structural invariants on per-iteration snapshots',
    'C06': 'runtime monitoring: loss monitor and independent reference iteration',
    'C07': 'runtime monitoring: joint loss monitor and pair-identity oracle on call histories',
    'C08': 'runtime monitoring: offline trace checker of the stopping rules',
    'C09': 'runtime monitoring with injected interrupts and SIGKILL: resumed against uninterrupted histories',
    'C10': 'runtime monitoring: checkpoint file audited against the recorded history',
    'C11': 'fault injection: every storage call of a checkpoint write made to fail in turn, file audited',
    'C12': 'runtime monitoring: store/load round trips, bit-equality oracle',
    'C13': 'runtime monitoring: definition oracle on constructed arrays',
    'C14': 'runtime monitoring: invariance and definition oracles',
    'C15': 'runtime monitoring: brute-force matching oracle and metamorphic invariances',
    'C16': 'runtime monitoring: entrywise definition oracles',
    'C17': 'runtime monitoring: optimality certificates (KKT, pseudo-inverse, trace norm)',
    'C18': 'runtime monitoring: definition oracles and metamorphic invariances',
    'C19': 'runtime monitoring: write-sanitised inputs, differential replay of call histories',
    'C20': 'runtime monitoring: experiment files audited against the recorded values',
    'C21': 'runtime monitoring: residual monitor on fits started at exact decompositions',
    'C22': 'runtime monitoring: mutated starting points, refusal oracle',
    'C23': 'runtime monitoring: definition oracles on starting points',
    'C25': 'runtime monitoring: captured output against the per-iteration snapshots',
    'C26': 'runtime monitoring: threads preempted at random lines, differential against lone runs',
    'C27': 'runtime monitoring: metamorphic comparison of per-iteration traces',
    'C28': 'runtime monitoring: invariants on per-iteration snapshots of degenerate problems',
    'C24': 'runtime monitoring: structure and noise identities of generated data',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{HERE}/checks/{i.lower()}.py'):
        checks.append(dict(
            property=i, quick_cmd=f'/opt/venv/bin/python run.py {i}',
            thorough_cmd=f'/opt/venv/bin/python run.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json', technique=TECH[i],
            level='fault_enumeration' if i == 'C11' else 'exploration',
            level_note='Held on the executions counted in the evidence file, nothing more; trusts numpy, scipy and h5py, '
                       'the independent oracles in vmon/oracle.py, and the tolerances stated in the evidence.'))
    else:
        na.append(dict(property=i, reason='The check is not built yet.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, h5py"', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the monitors observe through public attributes and the logger callback.')
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
