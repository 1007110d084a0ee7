"""Check of thread objects: programs generated by TLC from ThreadGen and at random run on the real class; ThreadTrace judges."""
import collections
import json
import random

import sched_check
import vlib
from vlib import job, log

NEW, DEF, MOVC, MOVA, JOIN, DETACH, JOINABLE, DEL, ID, NAP = range(1, 11)
ATTR, SAFF, GAFF, SPRIO, GPRIO, SCORE, SYS, RELEASE, HOLD, MYAFF, MYCORE, MYPRIO, MYSYS, WORKERS = range(11, 25)
NAMES = dict(zip(range(1, 25), ('launch default move-construct move-assign join detach joinable destroy id nap attributes set-cores get-cores set-priority '
                                'get-priority set-core system release hold my-cores my-core my-priority my-system workers').split()))
FORMS = 'lambda function+copies functor+moved reference const-callable handover member'.split()


class Prog:
    def __init__(self, bodies, small=False, rt=-1, refuse=0):
        self.bodies, self.small, self.rt, self.refuse = bodies, small, rt, refuse

    def text(self):
        r = [self.rt, self.refuse, len(self.bodies)]
        for b in self.bodies:
            r.append(len(b))
            for o in b:
                r += o
        return ' '.join(map(str, r))

    def spec(self):
        return ([['realtime', self.rt, 'refused', self.refuse]] if self.rt >= 0 else []) + [[[NAMES[o[0]]] + list(o[1:]) + ([FORMS[o[3] // 10]] if o[0] == NEW else []) for o in b] for b in self.bodies]


def rand_prog(rng, big=False):
    nb = rng.choice((6, 7, 8) if big else (1, 2, 3, 4))
    own = {0: [0, 1, 2, 3]}
    for i in range(1, nb + 1):
        own[i] = [4 + 3 * (i - 1) + j for j in range(3)]
    bodies = [[] for _ in range(nb + 1)]
    left = list(range(1, nb + 1))
    # who launches which body
    for i in range(nb + 1):
        ops, slots = bodies[i], own[i]
        for _ in range(rng.choice((20, 40) if big else (3, 5, 8)) if i == 0 else rng.choice((2, 3, 5) if big else (0, 0, 1, 2, 3))):
            s, t = rng.choice(slots), rng.choice(slots)
            r = rng.random()
            mine = [b for b in left if b > i]
            if r < 0.4 or (i == 0 and not any(o[0] == NEW for o in ops)):
                name, val = rng.randrange(6), rng.randrange(20)
                if mine and rng.random() < 0.8:
                    b = mine[0]
                    left.remove(b)
                    if rng.random() < 0.3:
                        to = rng.choice(own[b])
                        ops.append((NEW, s, b, 50 + name, val + 1000 * (100 * to + t + 1)))
                        bodies[b].append((JOIN, to, 0, 0, 0) if rng.random() < 0.7 else (DETACH, to, 0, 0, 0))
                    else:
                        ops.append((NEW, s, b, 10 * rng.choice((0, 1, 2, 3, 4, 6)) + name, val))
                elif len(bodies) < 27:   # a body without operations of its own
                    bodies.append([(NAP, rng.choice((1, 1000)), 0, 0, 0)] * rng.choice((0, 1)))
                    ops.append((NEW, s, len(bodies) - 1, 10 * rng.choice((0, 1, 2, 3, 4, 6)) + name, val))
            elif r < 0.48:
                ops.append((DEF, s, 0, 0, 0))
            elif r < 0.56:
                ops.append((MOVC, s, t, 0, 0))
            elif r < 0.68:
                ops.append((MOVA, s, t, 0, 0))
            elif r < 0.80:
                ops.append((JOIN, s, 0, 0, 0))
            elif r < 0.85:
                ops.append((DETACH, s, 0, 0, 0))
            elif r < 0.90:
                ops.append((JOINABLE, s, 0, 0, 0))
            elif r < 0.94:
                ops.append((ID, s, 0, 0, 0))
            elif r < 0.97:
                ops.append((DEL, s, 0, 0, 0))
            else:
                ops.append((NAP, rng.choice((1, 100, 5000)), 0, 0, 0))
    for b in left:
        bodies[0].append((NEW, 0, b, 0, 1))
    return Prog(bodies)


def small_programs():
    P = []
    for f in range(7):
        for name in (0, 3):
            if f == 5:
                P.append(Prog([[(NEW, 1, 1, 0, 3), (NEW, 0, 2, 50 + name, 4 + 1000 * (100 * 4 + 1 + 1)), (JOIN, 0, 0, 0, 0)], [], [(JOIN, 4, 0, 0, 0)]], True))
            else:
                P.append(Prog([[(NEW, 0, 1, 10 * f + name, 5), (JOINABLE, 0, 0, 0, 0), (JOIN, 0, 0, 0, 0), (JOINABLE, 0, 0, 0, 0)], []], True))
                P.append(Prog([[(NEW, 0, 1, 10 * f + name, 5), (NEW, 1, 2, 10 * f + 1, 6), (JOIN, 0, 0, 0, 0), (JOIN, 1, 0, 0, 0)], [], []], True))
                P.append(Prog([[(NEW, 0, 1, 10 * f + name, 5), (DETACH, 0, 0, 0, 0), (JOINABLE, 0, 0, 0, 0), (JOIN, 0, 0, 0, 0)], []], True))
                P.append(Prog([[(NEW, 0, 1, 10 * f + name, 5), (MOVC, 1, 0, 0, 0), (JOIN, 0, 0, 0, 0), (ID, 1, 0, 0, 0), (JOIN, 1, 0, 0, 0)], [(NAP, 1, 0, 0, 0)]], True))
                P.append(Prog([[(DEF, 1, 0, 0, 0), (NEW, 0, 1, 10 * f + name, 5), (MOVA, 1, 0, 0, 0), (NEW, 0, 2, 10 * f, 7), (JOIN, 1, 0, 0, 0), (JOIN, 0, 0, 0, 0)], [], []], True))
    return P


def attr_small():
    """Every attribute at the launch and changed afterwards."""
    P = []
    for prio in range(6):
        for mask in range(7):
            P.append(Prog([[(ATTR, (0, 64, 1024)[(prio + mask) % 3], mask, prio, 0), (NEW, 0, 1, 10 * ((prio + mask) % 5), 5), (SYS, 0, 0, 0, 0), (GAFF, 0, 0, 0, 0), (GPRIO, 0, 0, 0, 0),
                            (SPRIO, 0, (prio * 5 + mask) % 6, 0, 0), (GPRIO, 0, 0, 0, 0), (SAFF, 0, (prio + mask) % 7, 0, 0), (GAFF, 0, 0, 0, 0), (MOVC, 1, 0, 0, 0),
                            (SYS, 1, 0, 0, 0), (SCORE, 1, mask, 0, 0), (GAFF, 1, 0, 0, 0), (RELEASE, 1, 0, 0, 0), (JOIN, 1, 0, 0, 0)], [(MYSYS, 0, 0, 0, 0), (HOLD, 0, 0, 0, 0)]], True, 99))
            P.append(Prog([[(ATTR, 0, mask, prio, 0), (NEW, 0, 1, 10 * ((prio + mask) % 5), 5), (JOIN, 0, 0, 0, 0)],
                           [(MYSYS, 0, 0, 0, 0), (MYCORE if prio % 2 else MYAFF, 0, (mask + 1) % 7, 0, 0), (MYSYS, 0, 0, 0, 0), (MYPRIO, 0, (prio + 2) % 6, 0, 0), (MYSYS, 0, 0, 0, 0)]], True, 99))
    for n in (1, 2, 3):
        for prio, mask, stack in ((2, 0, 0), (0, 1, 256), (5, 5, 1024), (3, 3, 64)):
            for kind in (0, 1, 4, 5):
                P.append(Prog([[(ATTR, stack, mask, prio, 0), (WORKERS, n, n % 2, kind, 0)]], True, 99 if (n + kind) % 2 else 0))
        P.append(Prog([[(WORKERS, n, 0, 2, 0)]], True, 99))
    P.append(Prog([[(WORKERS, 0, 0, 3, 0)]], False, 99))
    # refused threads
    for f in (0, 1, 2, 3, 4, 6):
        P.append(Prog([[(NEW, 0, 1, 10 * f, 5), (JOINABLE, 0, 0, 0, 0), (JOIN, 0, 0, 0, 0), (NEW, 0, 1, 10 * f, 6), (MOVC, 1, 0, 0, 0), (JOIN, 1, 0, 0, 0), (JOIN, 0, 0, 0, 0)], []], True, 0, 500))
        P.append(Prog([[(ATTR, 0, 0, 4, 0), (NEW, 0, 1, 10 * f, 5), (DETACH, 0, 0, 0, 0), (ATTR, 0, 0, 1, 0), (NEW, 0, 1, 10 * f, 5), (JOIN, 0, 0, 0, 0)], []], True, 50))
    return P


def attr_prog(rng):
    """Launches with attributes, some of them refused; the attributes are changed by the owner or the thread itself."""
    rt = rng.choice((99, 99, 99, 0, 50))
    refuse = rng.choice((0, 0, 300))
    main, bodies = [], []
    slots = list(range(8))
    for _ in range(rng.choice((1, 2, 3, 4))):
        s = slots.pop(0)
        b = len(bodies) + 1
        prio, mask = rng.randrange(6), rng.randrange(7)
        main.append((ATTR, rng.choice((0, 0, 64, 300, 2048)), mask, prio, 0))
        main.append((NEW, s, b, 10 * rng.choice((0, 1, 2, 3, 4, 6)) + rng.randrange(6), rng.randrange(20)))
        own = rng.random() < 0.6

        def change(mine):
            r = rng.random()
            if r < 0.3:
                return (MYAFF if mine else SAFF, s, rng.randrange(7), 0, 0)
            if r < 0.5:
                return (MYCORE if mine else SCORE, s, rng.randrange(8), 0, 0)
            if r < 0.7 and rt != 50:
                return (MYPRIO if mine else SPRIO, s, rng.randrange(6), 0, 0)
            if r < 0.85 or mine:
                return (MYSYS if mine else SYS, s, 0, 0, 0)
            return (rng.choice((GAFF, GPRIO)), s, 0, 0, 0)
        if own:
            if rng.random() < 0.3:
                t = slots.pop(0)
                main.append((MOVC, t, s, 0, 0))
                s = t
            main += [change(False) for _ in range(rng.choice((1, 3, 6)))]
            bodies.append([(HOLD, 0, 0, 0, 0)])
            main += [(RELEASE, s, 0, 0, 0)] * (rng.random() < 0.7)
        else:
            bodies.append([change(True) for _ in range(rng.choice((1, 2, 4)))])
        if main[-1][0] == RELEASE or not own:
            main += [(rng.choice((JOIN, JOIN, DETACH)), s, 0, 0, 0)] * (rng.random() < 0.7)
    if rng.random() < 0.2 and rt != 50:
        main.append((ATTR, rng.choice((0, 64, 300)), rng.randrange(7), rng.randrange(6), 0))
        main.append((WORKERS, rng.randrange(1, 4), rng.randrange(2), rng.choice((0, 0, 1, 2, 4, 5)), 0))
    return Prog([main] + bodies, rt=rt, refuse=refuse)


BUDGET = {'quick': dict(programs=2500, big=60, per=24, events=500000, dfs=1500, gen=4000), 'thorough': dict(programs=20000, big=1000, per=60, events=6000000, dfs=40000, gen=100000)}


def run(prop, tier, seed):
    res = vlib.Result(prop, tier, seed)
    res.assumptions = ['the threads of the operating system are modelled by the runtime (rt/vrt.cpp); creating a thread succeeds',
                       'thread objects are used by one thread at a time']
    S = vlib.Scratch()
    try:
        _run(prop, tier, seed, res, S)
        return res.finish()
    finally:
        S.close()


def _run(prop, tier, seed, res, S):
    B = BUDGET[tier]
    lay = prop == 'C28'
    exes = vlib.build('h_thread', ('lay',) if lay else ('dbg', 'rel'))
    log('built')
    rng = random.Random('%s/%d' % (prop, seed))
    attr = prop == 'C27'
    r = vlib.tlc('ThreadGen', 'ThreadGen.cfg', S, short=True)
    if r['rc'] != 0:
        log(r['out'][-3000:])
        raise vlib.CheckError('TLC failed on ThreadGen')
    res.add(states=r['distinct'], transitions=r['generated'])
    hs = vlib.prints(r['out'], 'GEN')
    pre = {json.dumps(h[:-1]) for h in hs}
    hs = [h for h in hs if json.dumps(h) not in pre]
    rng.shuffle(hs)
    small = attr_small() if attr else small_programs() + attr_small()[::3] if lay else small_programs()
    gen = []
    for h in hs[:B['gen'] // (4 if attr or lay else 1)]:
        gen.append(Prog(rt=0 if attr else -1, refuse=rng.choice((200, 500)) if attr else 0, bodies=[[tuple(o[:3]) + ((10 * rng.choice((0, 1, 2, 3, 4, 6)) + rng.randrange(6), rng.randrange(20)) if o[0] == NEW else (0, 0)) for o in h], []]))
    res.add(generated_behaviours=len(gen))
    progs = small + gen + [(attr_prog if attr or lay and i % 3 == 0 else rand_prog)(rng) for i in range(B['programs'] // (4 if lay else 1))]
    nb = 0 if attr else B['big'] // (4 if lay else 1)
    progs += [rand_prog(rng, True) for _ in range(nb)]
    txt = S.path('p.txt')
    with open(txt, 'w') as f:
        f.write('%d\n' % len(progs))
        for p in progs:
            f.write(p.text() + '\n')
    js = {v: [] for v in exes}
    for i, p in enumerate(progs):
        if p.small:
            js['lay' if lay else 'dbg'].append(job(i, vlib.DFS, seed=1, count=B['dfs'] // (10 if lay else 1), pctd=2, timer=0))
        n = 8 if i >= len(progs) - nb else B['per'] if i >= len(small) + len(gen) else 4
        for strat, kw in ((vlib.RW, dict(rw=300)), (vlib.PCT, dict(pctd=3, pctl=60)), (vlib.RW, dict(rw=600)), (vlib.PCT, dict(pctd=4, pctl=150))):
            kw = dict(kw)
            if rng.random() < 0.2:
                kw['fine'] = 150
            if rng.random() < 0.3:
                kw['eintr'] = 200
            js['lay' if lay else 'rel' if rng.random() < 0.3 else 'dbg'].append(job(i, strat, seed=rng.randrange(1, 1 << 40), count=n // 4, **kw))
    recs, tot = [], collections.Counter()
    for v in js:
        rr, t = vlib.run_jobs(exes[v], txt, js[v], S)
        for x in rr:
            x['v'] = v
        recs += rr
        tot.update(t)
    log('ran', dict(tot))
    res.add(executions=tot['runs'], scheduling_points=tot['points'], programs=len(progs), exhaustive_schedule_searches=tot['dfs_complete'])
    rng.shuffle(recs)
    recs.sort(key=lambda r: 0 if r['p'] < len(small) or r['p'] >= len(progs) - nb else r['p'] % 3)
    sched_check.judge(prop, res, S, 'ThreadTrace', recs, progs, txt, None, exes, B['events'] // (2 if lay else 1), enforce=['LAY', 'FATAL'] if lay else [prop, 'FATAL', 'UAF', 'lib', 'THR'] + (['ATTR'] if attr else []), projection=lambda p, ev: ev)
