"""Check of the partitioners: the algorithm is checked against the contract (PartImpl/Partition), histories of the
real partitioners are judged by the contract (PartTrace)."""
import collections
import random

import sched_check
import vlib
from vlib import job, log

NEW, COPY, NEXT, INFO, DRAIN = 1, 2, 3, 4, 5
NAMES = {1: 'new', 2: 'copy', 3: 'next', 4: 'info', 5: 'drain'}
MAXINT = 2147483647


class Prog:
    def __init__(self, threads, small=False):
        self.threads, self.small = threads, small

    def text(self):
        r = [len(self.threads)]
        for t in self.threads:
            r.append(len(t))
            for o in t:
                r += list(o) + [0] * (7 - len(o))
        return ' '.join(map(str, r))

    def spec(self):
        return [[[NAMES[o[0]]] + list(o[1:]) for o in t] for t in self.threads]


def params(rng):
    k = rng.choice((1, 2, 3, 4))
    r = rng.random()
    n = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16)) if r < 0.8 else rng.choice((-1, -5, 17, 30, 100))
    f = rng.choice((0, 0, 1, 5, -3, -12, 1000, MAXINT - max(n, 0), MAXINT - max(n, 0) - 1, -MAXINT))
    if k in (2, 4) or n < 0 and f < -MAXINT // 2:
        f = 0
    g = rng.choice((1, 1, 2, 3, 4, 7, 20, MAXINT))
    if rng.random() < 0.06:   # a huge range in few pieces
        n = rng.choice((MAXINT, MAXINT - 1, 1 << 30, 3 * (1 << 29)))
        f = rng.choice((0, MAXINT - n)) if k in (1, 3) else 0
        g = rng.choice((1 << 29, MAXINT, (1 << 30) - 1))
    return k, f, f + n, g, rng.choice((1, 1, 2, 3, 4, 5, 8, 16, 40))


def rand_prog(rng):
    q = params(rng)
    pre = [(NEW, 0) + q]
    if rng.random() < 0.2:
        pre += [(NEXT, 0)] * rng.choice((1, 2))
    if rng.random() < 0.3:
        pre += [(COPY, 1, 0)] + [(NEXT, rng.choice((0, 1)))] * rng.choice((0, 1, 1))
        if rng.random() < 0.3:
            pre += [(COPY, 2, 1), (NEXT, 2)]
    ths, seq = [], len(pre) > 1
    for i in range(rng.choice((2, 2, 3, 3, 4))):
        t = []
        for _ in range(rng.choice((1, 2, 2, 3, 5))):
            t.append((NEXT, rng.choice((0, 0, 0, 1, 2))))
        if rng.random() < 0.25:
            t.append((DRAIN, 0, 300))
        if rng.random() < 0.2:
            d = 4 + i
            at = rng.randrange(len(t) + 1)
            t[at:at] = [(COPY, d, 0)] + [(NEXT, d)] * rng.choice((0, 1, 2))
            t.append((DRAIN, d, 300))
        if rng.random() < 0.2:
            t.append((INFO, 0))
        ths.append(t)
    return Prog([pre] + ths + [[(DRAIN, s, 300) for s in range(8)] + [(NEXT, 0), (NEXT, 0), (INFO, 0)]])


def sequential(tier):
    """every choice of small parameters: taken one after another, with copies on the way"""
    P = []
    N, B = (10, 8) if tier == 'quick' else (24, 14)
    for k in (1, 3):
        for f in (0, -4, 7):
            for n in range(0, N + 1):
                for b in range(1, B + 1):
                    for g in (range(1, 5) if k == 1 and b in (1, 3) else (1 + (n + b) % 7,)):
                        P.append(Prog([[(NEW, 0, k, f, f + n, g, b), (INFO, 0), (COPY, 1, 0), (NEXT, 0), (NEXT, 0), (COPY, 2, 0), (DRAIN, 0, 100), (DRAIN, 1, 100),
                                        (DRAIN, 2, 100), (COPY, 3, 0), (NEXT, 3), (NEXT, 0), (INFO, 0), (INFO, 2)]]))
    for n in range(0, N + 1):
        for b in range(1, B + 1):
            for k in (2, 4):
                P.append(Prog([[(NEW, 0, k, 0, n, 1 + b % 3, b), (DRAIN, 0, 100)]]))
    return P


def large(tier):
    """sizes, chunks and numbers of batches around the limits of narrower integers"""
    P = []
    lim = [127, 128, 129, 255, 256, 257, 1000, 4095, 4097, 32767, 32768, 65535, 65536, 65537, 100001, (1 << 24) - 1, (1 << 24) + 1, (1 << 31) - 1]
    for n in lim:
        for f in (0, -7, 40000, -70000):
            if f + n > MAXINT:
                continue
            for k in (1, 3):
                for b in (1, 3, 7, 64, 127, 128, 129, 255, 256, 257) + ((1000, 2000) if tier != 'quick' else ()) + ((32768, 65536, MAXINT) if k == 1 or n <= 257 else ()):
                    if (b > 60 or k == 1) and (n + b + f) % (4 if tier == 'quick' else 1):
                        continue
                    g = max(n // (1 + (n + b) % 100), 1)
                    P.append(Prog([[(NEW, 0, k, f, f + n, g, b), (NEXT, 0), (COPY, 1, 0), (DRAIN, 0, 3000), (NEXT, 0)] + ([(DRAIN, 1, 3000)] if b < 100 else []) + [(INFO, 0)]]))
    for n, g, b in ((300, 1, 4), (260, 1, 300), (1000, 3, 256)):
        for k in (1, 3):
            P.append(Prog([[(NEW, 0, k, 5, 5 + n, g, b)]] + [[(DRAIN, 0, 3000)]] * 3 + [[(NEXT, 0)]]))
    return P


def small_programs():
    P = []
    nx = (NEXT, 0)
    for k in (1, 3):
        for f, n, g, b in ((0, 2, 1, 2), (3, 4, 2, 2), (-1, 3, 2, 2), (0, 1, 1, 1), (5, 5, 3, 4), (0, 3, 1, 2)):
            c = [(NEW, 0, k, f, f + n, g, b)]
            fin = [(DRAIN, 0, 50), nx]
            P.append(Prog([c, [nx, nx], [nx, nx], fin], True))
            P.append(Prog([c, [nx], [nx], [nx], fin], True))
            P.append(Prog([c, [nx, nx, nx], [nx, nx, nx], fin], True))
            P.append(Prog([c, [nx, nx], [(COPY, 4, 0), (DRAIN, 4, 50)], fin], True))
    return P


BUDGET = {'quick': dict(programs=1500, per=24, events=700000, dfs=4000), 'thorough': dict(programs=15000, per=60, events=7000000, dfs=100000)}


def run(prop, tier, seed):
    res = vlib.Result(prop, tier, seed)
    res.assumptions = ['one thread runs at a time and atomics are sequentially consistent; missing happens-before edges are detected as races',
                       'ranges whose size fits the index type, positive chunk and number of batches']
    S = vlib.Scratch()
    try:
        _run(prop, tier, seed, res, S)
        return res.finish()
    finally:
        S.close()


def _run(prop, tier, seed, res, S):
    B = BUDGET[tier]
    exes = vlib.build('h_part', ('dbg', 'rel'))
    log('built')
    # the algorithm against the contract
    for cfg in ('PartImplLive.cfg',) if tier == 'quick' else ('PartImplLive.cfg', 'PartImpl.cfg', 'PartImplBig.cfg'):
        r = vlib.tlc('PartImpl', cfg, S, workers=vlib.NPROC, short=tier == 'quick', xmx='12g')
        if r['rc'] != 0:
            log(r['out'][-3000:])
            raise vlib.CheckError('the specification of the algorithm contradicts the contract')
        res.add(states=r['distinct'], transitions=r['generated'])
    log('algorithm checked')
    rng = random.Random('%s/%d' % (prop, seed))
    small, seq = small_programs(), sequential(tier) + large(tier)
    progs = small + seq + [rand_prog(rng) for _ in range(B['programs'])]
    txt = S.path('p.txt')
    with open(txt, 'w') as f:
        f.write('%d\n' % len(progs))
        for p in progs:
            f.write(p.text() + '\n')
    js = dict(dbg=[], rel=[])
    for i, p in enumerate(progs):
        if p.small:
            js['dbg'].append(job(i, vlib.DFS, seed=1, count=B['dfs'], pctd=3 if len(p.threads) < 5 else 2))
            js['rel'].append(job(i, vlib.DFS, seed=1, count=B['dfs'] // 4, pctd=2))
        if len(p.threads) == 1:
            js['dbg' if i % 2 else 'rel'].append(job(i, seed=1, count=1))
            continue
        for strat, kw in ((vlib.RW, dict(rw=300)), (vlib.PCT, dict(pctd=3, pctl=40)), (vlib.RW, dict(rw=600)), (vlib.PCT, dict(pctd=4, pctl=80))):
            kw = dict(kw)
            if rng.random() < 0.3:
                kw['weak'] = 150
            if rng.random() < 0.3:
                kw['fine'] = 150
            js['rel' if rng.random() < 0.25 else 'dbg'].append(job(i, strat, seed=rng.randrange(1, 1 << 40), count=B['per'] // 4, **kw))
    recs, tot = [], collections.Counter()
    for v in js:
        r, t = vlib.run_jobs(exes[v], txt, js[v], S)
        for x in r:
            x['v'] = v
        recs += r
        tot.update(t)
    log('ran', dict(tot))
    res.add(executions=tot['runs'], scheduling_points=tot['points'], programs=len(progs), exhaustive_schedule_searches=tot['dfs_complete'])
    rng.shuffle(recs)
    nfirst = len(small) + len(seq)
    recs.sort(key=lambda r: 0 if len(small) <= r['p'] < nfirst else 1 if r['p'] % 2 else 2)
    sched_check.judge(prop, res, S, 'PartTrace', recs, progs, txt, None, exes, B['events'], enforce=[prop, 'FATAL', 'UAF', 'lib'], projection=lambda p, ev: ev)
