#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules and the reasons below."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PURE = 'a pure function of its arguments: no schedule, clock, I/O, fault or crash point for a simulator to decide; '
NOT_APPLICABLE = {
    'C20': PURE + 'a generator of IEML texts and a round trip would be property-based testing, not simulation. '
           '(The part that depends on threads, stored tables and earlier parses is decided by C09, C10 and C11.)',
    'C21': PURE + 'what depends on the process (hash seed, earlier computations) is decided by C12.',
    'C22': PURE + 'what depends on the process (hash seed) is decided by C12.',
    'C23': PURE + 'that all processes compute the same relations is decided by C12, that they follow the database by C07.',
    'C24': PURE + 'what depends on threads and shared morphemes is decided by C11.',
}
NOTES = {
    'C01': 'Seeded search; every fault is placed among the operations counted in a run without fault, in the real code and '
           'libgit2. No guarantee for what was not drawn.',
    'C02': 'Seeded search over kills (and torn writes) placed among the counted operations. Process death, not power failure: '
           'data written before the kill is kept by the simulated disk.',
    'C03': 'Seeded search over histories against a multiset model; no fault needed, directory order and handles are simulated.',
    'C04': 'Seeded search over pairs of histories against a three-way merge oracle that reads the git objects independently.',
    'C05': 'Seeded search over interleavings of up to three replicas with lost requests and answers, then a healing phase. The '
           'transport is the local one of libgit2 behind a network stub.',
    'C06': 'Seeded search over kills and errors at the file operations of clone, pull and push, then recovery and redo.',
    'C07': 'Seeded search over histories and interleavings; the oracle is the uncached answer of a fresh process.',
    'C08': 'Seeded search over reading operations of every process of a read; the oracle is the answer without fault.',
    'C09': 'Seeded search over states of the stored tables, kills and errors in a starting process; the oracle is a process '
           'without stored tables.',
    'C10': 'Seeded search over schedules of real threads run one at a time, with preemption at the lines (or bytecodes) of the '
           'code; the oracle is each thread alone.',
    'C11': 'Seeded search over histories and schedules of threads; the oracle is each creation alone in a fresh process.',
    'C12': 'Seeded search over process configurations; the oracle is agreement between processes.',
    'C13': 'Seeded search over histories of dictionary transactions and faults, against a model of the dictionary.',
    'C14': 'Seeded search over histories, dirty states, faults and kills; the oracle reads the git objects independently.',
}


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        pid = json.loads(line)['id']
        if pid in NOT_APPLICABLE:
            na.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
            continue
        if not os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py')):
            na.append({'property': pid, 'reason': 'the check is not built yet'})
            continue
        m = importlib.import_module('sim.props.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': '/opt/venv/bin/python check.py ' + pid,
            'thorough_cmd': '/opt/venv/bin/python check.py {} --tier thorough'.format(pid),
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': 'deterministic simulation with fault injection: ' + m.TECHNIQUE,
            'level': m.LEVEL,
            'level_note': NOTES[pid],
        })
    man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hook in /repo: the seams are an LD_PRELOAD library (system calls), the audit hooks and trace functions of '
                    'the interpreter, and the pygit2 transport.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
