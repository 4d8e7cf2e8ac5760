#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'harness')]
sys.dont_write_bytecode = True

NOTES = {
    'reader': 'Bounded: TLC checks exhaustively that the reader specification tells the truth about every '
              'small file of the logger model; generated and seeded random files are loaded by the real '
              'code and every observation is validated by TLC against the byte-level reader '
              'specification. Trusts TLC, the Python harness and the observation through public '
              'attributes.',
    'writer': 'Bounded: seeded logs are written and reloaded by the real code; TLC validates the written bytes '
              'and the reloaded log against the specification (Write, Canonical, reader). Trusts TLC and '
              'the harness.',
    'store': 'Bounded: TLC enumerates the histories (operations, faults, interleavings) of the store model and '
             'checks its invariants; exported behaviours are replayed on a real database and every result '
             'is compared with the model. Trusts TLC, SQLite and the harness.',
    'migration': 'Bounded: TLC enumerates the migration model with its crash points; behaviours are replayed '
                 'with the real tool and scripts. Trusts TLC, SQLite and the harness.',
    'objects': 'Bounded: TLC enumerates the histories of the object model; exported and random histories are replayed in one '
               'process, and every observation of every living object is validated by TLC against the byte-level reader '
               'specification. Trusts TLC and the harness.',
    'dbuse': 'Bounded: logs of the models and seeded ones are stored in a real database; the objects obtained in every way are '
             'compared, written and queried; TLC validates every result against the specification of the log file itself. Trusts '
             'TLC, SQLite and the harness.',
    'files': 'Bounded: TLC enumerates the sequences of runs of the model of a tree of files; sampled and random ones are run with '
             'the real tools in a scratch tree, each run also by itself in a new process, and TLC validates the whole tree after every '
             'run; the outputs are computed from the bytes of the logs. Trusts TLC and the harness.',
    'tools': 'Bounded: seeded logs are run through the real tool; TLC validates the parsed output against the '
             'specification of the tool, which starts from the bytes of the log. Trusts TLC and the parsers '
             'of the harness.',
}
TECH = {
    'reader': 'TLA+ model checking (TLC) of logger/reader models; behaviours replayed and observations trace-validated',
    'writer': 'TLA+ specification of writing; written files and reloads trace-validated with TLC',
    'store': 'TLA+ model of the database store (TLC), behaviours and faults replayed on real databases',
    'migration': 'TLA+ model of migration with crash points (TLC), behaviours replayed on real databases',
    'objects': 'TLA+ model of log objects (TLC), behaviours replayed in one process and trace-validated',
    'dbuse': 'TLA+ specification of reading, writing, equality and queries; runs on stored logs trace-validated with TLC',
    'files': 'TLA+ model of the tools on a tree of files (TLC), sequences of runs replayed and trace-validated',
    'tools': 'TLA+ specification of the tool; its output on generated logs trace-validated with TLC',
}
NOT_APPLICABLE = {
}


def main():
    import importlib
    checks = []
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for m in ['reader', 'writer', 'store', 'migration', 'tools', 'objects', 'dbuse', 'files']:
        if not os.path.exists(os.path.join(HERE, 'checks', m + '.py')):
            continue
        mod = importlib.import_module('checks.' + m)
        for p in sorted(mod.CHECKS):
            checks.append({
                'property': p,
                'quick_cmd': 'python3 run.py ' + p,
                'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': TECH[m], 'level': 'model_checking', 'level_note': NOTES[m],
            })
    checks.sort(key=lambda c: c['property'])
    have = {c['property'] for c in checks}
    na = [{'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check under construction')}
          for p in props if p['id'] not in have]
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ with TLC; see DESIGN.md. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
