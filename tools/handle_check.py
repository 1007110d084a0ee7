"""Check of tasks and handles: programs generated by TLC from HandleGen and at random run on the real classes; HandleTrace judges."""
import collections
import json
import random

import sched_check
import vlib
from vlib import job, log

NEW, CPY, MOV, RST, VALID, GRAB, EXEC, ST, WAIT, AW, ISG, ISD, UID, PRIO, PAR, SWAP, RES, NAP = range(1, 19)
NAMES = dict(zip(range(1, 19), 'create copy move reset valid acquire execute single-threaded wait active-wait acquired done id priority parent swap result nap'.split()))
SHARED, OWN, VALUES = 6, 4, 32     # slots of all, of one thread; the first one of the task objects


class Prog:
    def __init__(self, threads, small=False):
        self.threads, self.small = threads, small

    def text(self):
        r = [len(self.threads)]
        for b in self.threads:
            r.append(len(b))
            for o in b:
                r += o
        return ' '.join(map(str, r))

    def spec(self):
        return [[[NAMES[o[0]]] + list(o[1:]) for o in b] for b in self.threads]


def queries(s):
    return [(o, s, 0, 0) for o in (VALID, ISG, ISD, UID, PRIO, PAR, RES)]


def rand_seq(rng, writable, readable, n, objects=False):
    """Operations of one thread: on handles it may change, on handles it may only use."""
    ops = []
    objs = [VALUES + i for i in range(4)] if objects else []
    for _ in range(n):
        r = rng.random()
        s, d = rng.choice(writable + readable), rng.choice(writable)
        if objs and rng.random() < 0.5:
            s, d = rng.choice(objs), rng.choice(objs)
            if r < 0.2:
                ops.append((NEW, d, 0, 100 * rng.randrange(5) + rng.randrange(50)))
            elif r < 0.45:
                ops.append((MOV, d, s, 0))
            elif r < 0.53:
                ops.append((RST, s, 0, 0))
            elif r < 0.75:
                ops.append((rng.choice((GRAB, EXEC, EXEC, ST, AW, WAIT)), s, 0, 0))
            else:
                ops.append((rng.choice((ISG, ISD, UID, UID, PRIO, RES, RES, PAR)), s, rng.randrange(2), 0))
            continue
        if r < 0.13:
            ops.append((NEW, d, rng.randrange(7), 100 * rng.randrange(5) + rng.randrange(50)))
        elif r < 0.25:
            ops.append((CPY, d, s, rng.randrange(3)))
        elif r < 0.32:
            ops.append((MOV, d, rng.choice(writable), rng.randrange(3)))
        elif r < 0.36:
            ops.append((SWAP, d, rng.choice(writable), 0))
        elif r < 0.44:
            ops.append((RST, d, rng.randrange(3), 0))
        elif r < 0.72:
            ops.append((rng.choice((GRAB, GRAB, EXEC, EXEC, ST, AW, WAIT)), s, 0, 0))
        elif r < 0.98:
            ops.append((rng.choice((VALID, ISG, ISD, UID, UID, PRIO, PAR, RES, RES)), s, rng.randrange(2), 0))
        else:
            ops.append((NAP, rng.choice((1, 100)), 0, 0))
    return ops


def rand_prog(rng, big=False):
    shared = list(range(SHARED))
    nt = rng.choice((0, 2, 3, 4) if not big else (2, 3, 4))
    n = rng.choice((30, 60)) if big else rng.choice((3, 6, 10))
    before = [(NEW, s, rng.randrange(7), 100 * rng.randrange(5) + rng.randrange(50)) for s in shared if rng.random() < 0.5 or s == 0]
    if rng.random() < 0.3:
        before += [(CPY, rng.choice(shared), rng.choice(shared), rng.randrange(3))]
    threads = [before + rand_seq(rng, shared, [], n if nt == 0 else 2, nt == 0)]
    hot = [s for s in shared if rng.random() < 0.4] or [0]
    for t in range(nt):
        own = [SHARED + OWN * t + j for j in range(OWN)]
        threads.append(rand_seq(rng, own, hot, rng.choice((2, 4, 7)) if not big else n // 2))
    after = []
    for s in shared:
        if rng.random() < 0.6:
            after += [(rng.choice((WAIT, AW, ST)), s, 0, 0)] + [q for q in queries(s) if rng.random() < 0.4]
    threads.append(after)
    return Prog(threads)


def small_programs():
    P = []
    for f in range(7):
        p = 100 * ((f + 4) % 5) + 10 + f
        # one task, two of them try
        for a, b in (([(GRAB, 0, 0, 0), (EXEC, 0, 0, 0)], [(GRAB, 0, 0, 0), (EXEC, 0, 0, 0)]), ([(GRAB, 0, 0, 0)], [(ST, 0, 0, 0), (ISD, 0, 0, 0)]),
                     ([(AW, 0, 0, 0), (ISD, 0, 0, 0)], [(AW, 0, 0, 0), (RES, 0, 0, 0)]), ([(ST, 0, 0, 0)], [(ST, 0, 0, 0), (WAIT, 0, 0, 0)]),
                     ([(ISG, 0, 0, 0), (ISD, 0, 0, 0), (ISG, 0, 0, 0)], [(GRAB, 0, 0, 0), (ISG, 0, 0, 0), (EXEC, 0, 0, 0), (ISD, 0, 0, 0)])):
            P.append(Prog([[(NEW, 0, f, p)], a, b, queries(0)], True))
        # the last handle goes
        P.append(Prog([[(NEW, 0, f, p), (CPY, SHARED, 0, 0), (MOV, SHARED + OWN, 0, 0)], [(AW, SHARED, 0, 0), (RST, SHARED, 0, 0)], [(ST, SHARED + OWN, 0, 0), (RST, SHARED + OWN, 1, 0)], []], True))
        P.append(Prog([[(NEW, 0, f, p), (CPY, SHARED, 0, 1), (MOV, SHARED + OWN, 0, 1)], [(RST, SHARED, 0, 0)], [(RST, SHARED + OWN, 2, 0)], []], True))
        # tasks created at once
        P.append(Prog([[], [(NEW, SHARED, f, p), (UID, SHARED, 0, 0)], [(NEW, SHARED + OWN, f, p), (UID, SHARED + OWN, 0, 0)], [(UID, SHARED, 0, 0), (UID, SHARED + OWN, 0, 0)]], True))
        for way in range(3):
            P.append(Prog([[(NEW, 0, f, p)] + queries(0) + [(CPY, 0, 0, way), (MOV, 0, 0, way)] + queries(0) + [(CPY, 1, 0, way), (MOV, 2, 0, way)] + queries(0) + queries(1) + queries(2) +
                            [(GRAB, 1, 0, 0), (GRAB, 2, 0, 0), (ISG, 2, 0, 0), (RST, 1, way, 0), (RST, 2, way, 0), (EXEC, 0, 0, 0)]], True))
            P.append(Prog([[(NEW, 0, f, p), (NEW, 1, f, p + 1), (SWAP, 0, 1, 0), (CPY, 0, 1, way)] + queries(0) + queries(1) + [(AW, 0, 0, 0), (AW, 1, 0, 0)] + queries(1) + [(CPY, 1, 2, way), (MOV, 0, 2, way), (VALID, 0, 0, 0), (VALID, 1, 0, 0)]], True))
    V = VALUES
    for a in ([], [(GRAB, V, 0, 0)], [(GRAB, V, 0, 0), (EXEC, V, 0, 0)], [(ST, V, 0, 0)], [(AW, V, 0, 0)]):
        for b in ([], [(NEW, V + 1, 0, 117)], [(NEW, V + 1, 0, 117), (ST, V + 1, 0, 0)]):
            P.append(Prog([[(NEW, V, 0, 208)] + a + b + [(MOV, V + 1, V, 0), (MOV, V + 1, V + 1, 0), (UID, V, 0, 0)] + queries(V + 1) + [(EXEC, V + 1, 0, 0), (AW, V + 1, 0, 0), (WAIT, V + 1, 0, 0)] + queries(V + 1) +
                            [(MOV, V, V + 1, 0)] + queries(V) + [(UID, V + 1, 0, 0), (RST, V, 0, 0), (RST, V + 1, 0, 0)]], True))
    return P


BUDGET = {'quick': dict(programs=2000, big=60, per=20, events=450000, dfs=1000, gen=3000, depth=5),
          'thorough': dict(programs=16000, big=600, per=60, events=6000000, dfs=40000, gen=60000, depth=7)}


def numbered(prop, events):
    """Ids are compared with each other and with 0 only: numbers them by first appearance."""
    of, last, out = {0: 0}, {}, []
    for e in events:
        if e[0] == 'c':
            last[e[1]] = e[2]
        elif e[0] == 'r' and last.get(e[1]) == 'uid':
            e = [e[0], e[1], of.setdefault(e[2], len(of))] + list(e[3:])
        out.append(e)
    return out


def run(prop, tier, seed):
    res = vlib.Result(prop, tier, seed)
    res.assumptions = ['a handle is changed by one thread at a time; any number of threads use it', 'a task object is used by one thread; what is left of a moved one is only destroyed, assigned to or asked for its id',
                       'groups are covered by C04-C06; here they have no members']
    S = vlib.Scratch()
    try:
        _run(prop, tier, seed, res, S)
        return res.finish()
    finally:
        S.close()


def _run(prop, tier, seed, res, S):
    B = BUDGET[tier]
    exes = vlib.build('h_handle', ('dbg', 'rel'))
    log('built')
    rng = random.Random('%s/%d' % (prop, seed))
    r = vlib.tlc('HandleGen', 'HandleGen.cfg' if tier == 'quick' else 'HandleGenBig.cfg', S, short=True)
    if r['rc'] != 0:
        log(r['out'][-3000:])
        raise vlib.CheckError('TLC failed on HandleGen')
    res.add(states=r['distinct'], transitions=r['generated'])
    hs = vlib.prints(r['out'], 'GEN')
    pre = {json.dumps(h[:-1]) for h in hs}
    hs = [h for h in hs if json.dumps(h) not in pre]
    rng.shuffle(hs)
    gen = []
    for h in hs[:B['gen']]:
        ops = []
        for o in h:
            o = list(o)
            if o[0] == NEW:
                o[2] = rng.choice((0, 1, 2, 3, 6))
                o[3] = 100 * rng.randrange(5) + rng.randrange(50)
            elif o[0] in (CPY, MOV):
                o[3] = rng.randrange(3)
            elif o[0] == RST:
                o[2] = rng.randrange(3)
            ops.append(tuple(o))
        used = sorted({o[1] for o in ops})
        gen.append(Prog([ops + [(q, s, 0, 0) for s in used for q in (VALID, ISG, ISD, UID, PRIO, RES) if s < VALUES or q != VALID]]))
    res.add(generated_behaviours=len(gen))
    small = small_programs()
    progs = small + gen + [rand_prog(rng) for _ in range(B['programs'])] + [rand_prog(rng, True) for _ in range(B['big'])]
    txt = S.path('p.txt')
    with open(txt, 'w') as f:
        f.write('%d\n' % len(progs))
        for p in progs:
            f.write(p.text() + '\n')
    js = {v: [] for v in exes}
    for i, p in enumerate(progs):
        if len(p.threads) < 3 or not any(p.threads[1:-1]):     # one thread
            js['rel' if rng.random() < 0.3 else 'dbg'].append(job(i, vlib.RW, seed=rng.randrange(1, 1 << 40), count=1, rw=300, weak=rng.choice((0, 0, 500))))
            continue
        if p.small:
            js['dbg'].append(job(i, vlib.DFS, seed=1, count=B['dfs'], pctd=2, timer=0))
        n = 8 if i >= len(progs) - B['big'] else B['per']
        for strat, kw in ((vlib.RW, dict(rw=300)), (vlib.PCT, dict(pctd=3, pctl=60)), (vlib.RW, dict(rw=600)), (vlib.PCT, dict(pctd=4, pctl=150))):
            kw = dict(kw)
            if rng.random() < 0.2:
                kw['fine'] = 150
            if rng.random() < 0.2:
                kw['weak'] = 300
            js['rel' if rng.random() < 0.3 else 'dbg'].append(job(i, strat, seed=rng.randrange(1, 1 << 40), count=n // 4, **kw))
    recs, tot = [], collections.Counter()
    for v in js:
        rr, t = vlib.run_jobs(exes[v], txt, js[v], S)
        for x in rr:
            x['v'] = v
        recs += rr
        tot.update(t)
    log('ran', dict(tot))
    res.add(executions=tot['runs'], scheduling_points=tot['points'], programs=len(progs), exhaustive_schedule_searches=tot['dfs_complete'])
    rng.shuffle(recs)
    recs.sort(key=lambda r: 0 if r['p'] < len(small) or r['p'] >= len(progs) - B['big'] else r['p'] % 3)
    sched_check.judge(prop, res, S, 'HandleTrace', recs, progs, txt, None, exes, B['events'], enforce=[prop, 'FATAL', 'UAF', 'lib', 'HND'], projection=numbered)
