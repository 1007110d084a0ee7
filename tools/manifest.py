#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ('Trusted: rt/vrt.cpp (turn-taking threads, virtual time, model of semaphores, mutexes, futexes and threads) and the events the '
         'harness records. Schedules are sampled, except where a search of all schedules with few preemptions is stated.')
checks = {}
for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C22 C25 C26'.split():
    checks[p] = dict(technique='TLA+ contract of the scheduler (spec/Contract.tla), TLC: trace validation of executions of the real code under a controlled scheduler',
                     note='Every recorded execution of generated and directed programs is judged event by event by TLC against spec/Contract.tla; '
                          'small programs with all schedules of at most two preemptions. ' + TRUST)
for p in 'C16 C17 C18 C19 C20 C21 C23'.split():
    checks[p] = dict(technique='TLA+ specification of synchronization objects and queue (spec/Sync.tla), TLC: one replayed program per transition of its state graph, '
                               'and validation of recorded concurrent histories (linearizability) against it',
                     note='Histories of the real objects are explained by spec/Sync.tla or reported; behaviours generated by TLC from spec/SyncGen.tla are replayed; '
                          'small programs with all schedules of at most two preemptions. Overlapping calls that only the implementation semantics explains are known findings. ' + TRUST)
checks['C15'] = dict(technique='TLA+ specification of the partitioners (spec/Partition.tla), TLC: exhaustive check of the algorithm against the contract, '
                               'and validation of recorded histories of the real partitioners against the contract',
                     note='All small parameters drained sequentially; concurrent callers and copies under a controlled scheduler, small programs with all schedules of at most '
                          'two preemptions. ' + TRUST)
checks['C24'] = dict(technique='TLA+ specification of threads (spec/Threads.tla), TLC: replay of generated programs, and validation of recorded executions of real threads',
                     note='Programs of launches, joins, detaches and moves, generated by TLC and at random, on the real thread class under a controlled scheduler. ' + TRUST)
checks['C27'] = dict(technique='TLA+ specification of threads and their attributes (spec/Threads.tla), TLC: replay of generated programs, and validation of recorded executions of real threads '
                               'against a model of the system that may refuse threads',
                     note='Every priority and mask at launch and changed later, realtime limits of the system, workers with attributes, refused threads; the system (affinity, scheduling '
                          'parameters, limits, pthread_create) is a model in rt/vrt.cpp. ' + TRUST)
checks['C28'] = dict(technique='TLA+ specifications of synchronization objects and threads extended by layers (spec/Sync.tla, spec/Threads.tla), TLC: replay of generated programs, and validation '
                               'of recorded executions of the real classes with counting layers',
                     note='Each operation has to reach the layer once; a token the layer owns has to be where the specification of moves says. ' + TRUST)
checks['C29'] = dict(technique='TLA+ specification of tasks, handles and task objects (spec/Handles.tla), TLC: replay of generated programs, and validation of recorded executions of the real '
                               'classes',
                     note='One program per transition of the state graph of spec/HandleGen.tla and random programs of up to five threads; small ones with all schedules of at most two '
                          'preemptions. ' + TRUST)
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
TODO = os.environ.get('TODO', '').split()
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
for p in props:
    if p in checks and p not in TODO:
        m['checks'].append(dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p, thorough_cmd='python3 tools/check.py %s thorough' % p,
                                technique=checks[p]['technique'], level='model_checking', level_note=checks[p]['note']))
    else:
        m['not_applicable'].append(dict(property=p, reason='not claimed yet: its specification and harness are still being built'))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
