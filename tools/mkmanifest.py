"""python3 tools/mkmanifest.py: MANIFEST.json from the check modules present"""
import importlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C20': 'pure functions of array arguments: no I/O, time, concurrency, history or fault the answer could depend on, '
           'so there is nothing for a simulator to schedule or inject',
    'C21': 'the VTF writer cannot be constructed or run on Python 3 (its module still uses Python 2 only constructs and '
           'is not exported or documented), so no execution of it exists to simulate',
}
TECH = {
    'default': 'deterministic simulation: seeded search over generated models and fault sequences through an '
               'LD_PRELOAD I/O seam, checked against an independent reference model; failing plans shrunk and '
               'replayed exactly',
}
TECH.update({
    'C06': 'deterministic simulation with crash injection: the output is rebuilt at seeded prefixes of the recorded '
           'write sequence (last write whole or torn) and re-opened',
    'C17': 'deterministic simulation of threads: a seeded scheduler parks and releases the threads at library source '
           'lines and bytecode instructions, with simulated locks; every outcome compared with the undisturbed one',
})
NOTES = {
    'C06': 'process death only: writes already issued survive in order (no reordering by the kernel)',
    'C17': 'interleavings at library source lines and bytecode instructions; calls into PyTables, HDF5 and numpy are '
           'atomic; threads use separate file handles',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(ROOT, 'checks', i.lower() + '.py')
        if os.path.exists(f):
            src = open(f).read()
            level = [ln for ln in src.split('\n') if ln.startswith('LEVEL')][0].split("'")[1]
            checks.append(dict(property=i, quick_cmd='python3 run.py check %s quick' % i,
                               thorough_cmd='python3 run.py check %s thorough' % i,
                               technique=TECH.get(i, TECH['default']), level=level,
                               level_note=NOTES.get(i, 'seeded sampling of inputs, histories and faults; nothing '
                                                       'is enumerated exhaustively')))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
    commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse', 'b5ab21a..HEAD'],
                             capture_output=True, text=True).stdout.split('\n')
    man = dict(version=1, setup_cmd='python3 run.py setup',
               hooks=dict(guard='none', enable='no hooks: every seam lies outside the repository (LD_PRELOAD layer, '
                                               'sys.settrace, patched PyTables entry points)', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='Commands run from /verif. VERIF_SEED selects the seeds, VERIF_RUNS the number of runs. '
                     'Repairs of genuine defects are listed in known_findings.json.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', [x['property'] for x in na])


main()
