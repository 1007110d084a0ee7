"""Checks of semaphores, events, mutexes, the queue, timed waits, named objects and moves: histories recorded
from the real objects under a controlled scheduler are explained (or not) by the specification (Sync)."""
import collections
import json
import random

import sched_check
import vlib
from vlib import job, log

SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX, QUE = range(8)
KINDS = ['semaphore', 'auto_reset_event', 'manual_reset_event', 'global_semaphore', 'global_auto_reset_event',
         'global_manual_reset_event', 'global_mutex', 'concurrent_queue']
NEW, MOVEC, MOVEA, DEL, VALID = 1, 2, 3, 4, 5
NOTIFY, NOTIFYALL, TRY, WAIT, FOR, UNTIL, RESET, UNLOCK, UNLOCK1 = 10, 11, 12, 13, 14, 15, 16, 17, 18
PUSH, POP, EMPTY, SLEEP, SLEEPU, LIVE, NAP = 20, 21, 22, 30, 31, 40, 41
CREATE, OPEN, OPENCREATE, BYNAME = range(4)
NAMES = {1: 'new', 2: 'movec', 3: 'movea', 4: 'del', 5: 'valid', 10: 'notify', 11: 'notifyAll', 12: 'try', 13: 'wait', 14: 'for', 15: 'until',
         16: 'reset', 17: 'unlock-if-held', 18: 'unlock', 20: 'push', 21: 'pop', 22: 'empty', 30: 'sleep_for', 31: 'sleep_until', 40: 'live', 41: 'nap'}


def op(o, a=0, b=0, c=0, d=0, e=0):
    return (o, a, b, c, d, e)


class Prog:
    """threads[0] runs before, threads[-1] after the concurrent ones."""

    def __init__(self, kinds, threads, small=False):
        self.kinds, self.threads, self.small = kinds, threads, small

    def text(self):
        r = [len(self.kinds)] + list(self.kinds) + [len(self.threads)]
        for t in self.threads:
            r.append(len(t))
            for o in t:
                r += o
        return ' '.join(map(str, r))

    def spec(self):
        return dict(variables=[('layered ' if k >= 8 else '') + KINDS[k % 8] for k in self.kinds], threads=[[[NAMES[o[0]]] + list(o[1:]) for o in t] for t in self.threads])

    def nt(self):
        return max(1, len(self.threads) - 1)


def new(rng, kind, slot, name=1, opt=None, init=None, mx=None):
    """creation of the object under test"""
    if kind in (SEM, GSEM):
        mx = rng.choice((0, 1, 1, 2, 2, 3)) if mx is None else mx
        init = rng.randrange(0, min(mx or 2, 2) + 1) if init is None else init
    elif kind == GMTX:
        mx, init = 0, (rng.choice((0, 1, 1, 1)) if init is None else init)
    else:
        mx = init = 0
    return op(NEW, slot, name, rng.choice((CREATE, OPENCREATE)) if opt is None else opt, init, mx)


SHORT = [(2, 0), (2, 1), (2, 3), (1, 50), (0, 1), (2, -5), (11, 0), (0, 0)]
LONG = [(2, 900), (2, 999), (3, 1), (3, 2), (2, 1500), (4, 1), (5, 2), (6, 20), (6, 3), (7, 10), (9, 2), (9, 5), (0, 999999999), (0, 2000000000), (12, 1500000), (1, 999999), (8, 0), (10, 0), (3, 5), (2, 2500), (5, 20000)]
POINTS = [(0, 5), (0, 1200), (1, 7), (1, 2600), (2, 10), (2, 1100), (3, 2000), (3, 5000), (4, 700), (5, 3), (5, 12), (0, -100), (1, 0), (1, -3000)]


def timed(rng, slot, short=0.5):
    if rng.random() < 0.3:
        u, v = rng.choice(POINTS)
        return op(UNTIL, slot, u, v)
    u, v = rng.choice(SHORT if rng.random() < short else LONG)
    return op(FOR, slot, u, v)


def rand_object(rng, kind):
    """concurrent operations on one object, reached through one or several variables"""
    ns = 1 if kind in (SEM, AEV, MEV, QUE) else rng.choice((1, 1, 2))
    kinds = [kind] * ns
    mx = rng.choice((0, 0, 1, 1, 2, 3)) if kind in (SEM, GSEM) else None
    pre = [new(rng, kind, 0, mx=mx)]
    if kind == GMTX and pre[0][4] == 0:
        pre.append(op(UNLOCK1, 0)) if rng.random() < 0.5 else None
    for s in range(1, ns):
        pre.append(op(NEW, s, 1, rng.choice((OPEN, OPENCREATE)), 0, mx or 0))
    nt = rng.choice((2, 2, 3, 3, 4))
    ths, val = [], [0]

    def one(s):
        r = rng.random()
        if kind == QUE:
            if r < 0.5:
                val[0] += 1
                return [op(PUSH, s, val[0], rng.randrange(2))]
            return [op(POP, s)] if r < 0.85 else [op(EMPTY, s)]
        if kind == GMTX:
            a = op(WAIT, s) if r < 0.45 else op(TRY, s) if r < 0.75 else timed(rng, s)
            return [a, op(NAP, rng.choice((1, 2000)))][:rng.choice((1, 2))] + ([op(UNLOCK, s)] if rng.random() < 0.92 else [])
        if kind in (SEM, GSEM):
            if r < 0.40:
                return [op(NOTIFY, s, rng.choice((1, 1, 1, 2, 3, 0)))]
            if r < 0.45 and mx:
                return [op(NOTIFYALL, s)]
            return [op(TRY, s)] if r < 0.65 else [op(WAIT, s)] if r < 0.85 else [timed(rng, s)]
        if r < 0.40:
            return [op(NOTIFY, s, 1)]
        if r < 0.58 and kind in (MEV, GMEV):
            return [op(RESET, s)]
        return [op(WAIT, s)] if r < 0.80 else [timed(rng, s, 0.8)]
    for _ in range(nt):
        t = []
        for _ in range(rng.choice((1, 2, 2, 3, 4))):
            t += one(rng.randrange(ns))
        ths.append(t)
    post = []
    for _ in range(rng.choice((0, 2, 4))):
        if kind == GMTX:
            post.append(rng.choice((op(UNLOCK1, 0), op(TRY, 0), op(FOR, 0, 2, 1))))
        elif kind == QUE:
            post.append(rng.choice((op(POP, 0), op(EMPTY, 0), op(PUSH, 0, 77))))
        elif kind in (SEM, GSEM):
            post.append(rng.choice((op(TRY, 0), op(TRY, 0), op(NOTIFY, 0, 2), op(FOR, 0, 2, 1))))
        else:
            post.append(rng.choice((op(NOTIFY, 0, 1), op(FOR, 0, 2, 1), op(FOR, 0, 2, 0))))
    if kind == QUE:
        post += [op(POP, 0)] * 12
    return Prog(kinds, [pre] + ths + [post])


def rand_timed(rng):
    kind = rng.choice((SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX, GMTX))
    pre = [new(rng, kind, 0, init=0, mx=2)]
    ths = []
    r = rng.random()
    if r < 0.12:
        t = []
        for _ in range(rng.choice((1, 2))):
            t.append(op(SLEEP, 0, *rng.choice([x for x in SHORT + LONG if x[0] not in (8, 10, 11)])) if rng.random() < 0.6 else op(SLEEPU, 0, *rng.choice(POINTS)))
        return Prog([kind], [[], t, []] if rng.random() < 0.7 else [[], t, [op(SLEEP, 0, 2, 3)], []])
    never = False
    for _ in range(rng.choice((1, 1, 2, 3))):
        t = []
        for _ in range(rng.choice((1, 1, 2))):
            o = timed(rng, 0, 0.25)
            if o[0] == FOR and o[1 + 1] in (8, 10):
                never = True
            t.append(o)
            if kind == GMTX:
                t.append(op(NAP, rng.choice((1, 300000, 1200000))))
                t.append(op(UNLOCK, 0))
        ths.append(t)
    if rng.random() < 0.7:
        t = []
        for _ in range(rng.choice((1, 2))):
            t.append(op(NAP, rng.choice((1, 500, 2000, 999000, 1000000, 2500000, 61000000))))
            t.append(op(UNLOCK1, 0) if kind == GMTX and len(ths) == 1 and len(t) == 1 else op(NOTIFY, 0, 1) if kind != GMTX else op(NAP, 5))
        ths.append(t)
    # waits that never end by themselves are ended at the end (there always is somebody left to do it)
    return Prog([kind], [pre] + ths + [[op(FOR, 0, 2, 1), op(FOR, 0, 0, 0)]])


def rand_names(rng, concurrent):
    kind = rng.choice((GSEM, GSEM, GAEV, GMEV, GMTX))
    ns = rng.choice((3, 4, 5, 6))
    nthreads = rng.choice((2, 3)) if concurrent else 0
    kinds = [kind] * ns

    def ops(slots, n, live):
        t = []
        for _ in range(n):
            s = rng.choice(slots)
            r = rng.random()
            if r < 0.45:
                nm = rng.choice((1, 1, 1, 2, 2, 8, 9)) if r < 0.1 else rng.choice((1, 1, 1, 2))
                o = rng.choice((CREATE, OPEN, OPENCREATE, BYNAME, OPENCREATE))
                t.append(op(NEW, s, nm, o, rng.choice((0, 1, 2)) if kind == GSEM else rng.choice((0, 1)), rng.choice((0, 3)) if kind == GSEM else 0))
            elif r < 0.65:
                t.append(op(DEL, s))
            elif r < 0.7:
                t.append(op(VALID, s))
            elif r < 0.85:
                t.append(op(UNLOCK1, s) if kind == GMTX else op(NOTIFY, s, 1))
            else:
                t.append(op(TRY, s) if kind in (GSEM, GMTX) else op(FOR, s, 2, 0))
            if live and rng.random() < 0.3:
                t.append(op(LIVE, s))
        return t
    if kind == GMTX and concurrent:
        pass
    slots = list(range(ns))
    if not concurrent:
        return Prog(kinds, [ops(slots, rng.choice((6, 10, 14)), True)])
    own = [slots[i::nthreads] for i in range(nthreads)]
    ths = [ops(o, rng.choice((2, 3, 4)), False) for o in own]
    if kind == GMTX:   # unlocking what somebody else holds isn't intended
        ths = [[o for o in t if o[0] != UNLOCK1] for t in ths]
    if kind in (GAEV, GMEV, GSEM):   # overlapping notifications are another property's business
        first = rng.randrange(nthreads)
        ths = [[o for o in t if o[0] != NOTIFY or i == first] for i, t in enumerate(ths)]
        if kind == GMEV:
            ths = [[o for o in t if o[0] != FOR or i == first] for i, t in enumerate(ths)]
    pre = ops(slots, rng.choice((0, 1, 2, 3)), False)
    return Prog(kinds, [pre] + ths + [ops(slots, rng.choice((0, 3, 5)), True)])


def rand_moves(rng):
    kind = rng.choice((SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX))
    ns = rng.choice((2, 3, 3, 4))
    t = []
    # whoever opens a named semaphore gives the maximum it was created with
    mxs = {nm: rng.choice((2, 3, 0, 1)) for nm in range(1, 5)}

    def anew(s, nm):
        if kind == GSEM:
            return new(rng, kind, s, name=nm, mx=mxs[nm])
        return new(rng, kind, s, name=nm)
    for s in range(ns):
        if rng.random() < 0.7:
            o = anew(s, rng.choice((s + 1, s + 1, 1)))
            t.append(o[:3] + (OPENCREATE,) + o[4:])
    for _ in range(rng.choice((5, 8, 12))):
        s, o = rng.randrange(ns), rng.randrange(ns)
        r = rng.random()
        if r < 0.12:
            t.append(anew(s, rng.choice((1, 2, 3))))
        elif r < 0.3:
            t.append(op(MOVEC, s, o) if s != o else op(DEL, s))
        elif r < 0.6:
            t.append(op(MOVEA, s, o))
        elif r < 0.7:
            t.append(op(DEL, s))
        elif r < 0.82:
            t.append(op(UNLOCK1, s) if kind == GMTX else op(NOTIFY, s, rng.choice((1, 1, 2, 4)) if kind in (SEM, GSEM) else 1))
        elif r < 0.94:
            t.append(op(TRY, s) if kind in (SEM, GSEM, GMTX) else op(FOR, s, 2, 0))
        else:
            t.append(op(VALID, s))
        if rng.random() < 0.4:
            t.append(op(LIVE, s))
    if kind in (SEM, GSEM):     # what has become of count and maximum
        for s in range(ns):
            t += [op(NOTIFY, s, 4)] + [op(TRY, s)] * 6
    return Prog([kind] * ns, [t])


def rand_large(rng, prop):
    """long histories, large counts, many threads, many variables"""
    threads = rng.random() < 0.5
    if prop == 'C16':
        kind = rng.choice((SEM, GSEM))
        mx = rng.choice((7, 20, 127, 128, 255, 256, 300, 1000, 32768, 65536, 70000, 2147483646, 0))
        init = rng.choice((0, 1, mx // 2, max(mx - 2, 0), mx)) if mx else rng.choice((0, 127, 255, 1000, 65535))
        pre = [op(NEW, 0, 1, 2, init, mx)]
        if not threads:
            for _ in range(rng.choice((20, 60))):
                r = rng.random()
                pre.append(op(NOTIFY, 0, rng.choice((1, 2, 5, 17, 60, 70, 120, 257))) if r < 0.4 else op(NOTIFYALL, 0) if r < 0.45 and 0 < mx <= 300 else op(TRY, 0) if r < 0.8 else op(FOR, 0, 2, 0))
            return Prog([kind], [pre + [op(TRY, 0)] * rng.choice((5, 310, 310))])
        nt = rng.choice((5, 6, 7))
        init = min(init, rng.randrange(3))
        pre = [op(NEW, 0, 1, 2, init, mx)]
        ths = [[op(NOTIFY, 0, rng.choice((1, 3, 6)))] if i == 0 else [rng.choice((op(WAIT, 0), op(WAIT, 0), op(TRY, 0), op(FOR, 0, 2, 1)))] * rng.choice((1, 1, 2)) for i in range(nt)]
        return Prog([kind], [pre] + ths + [[op(NOTIFY, 0, 60)] + [op(TRY, 0)] * 12])
    if prop == 'C17':
        kind = rng.choice((AEV, MEV, GAEV, GMEV))
        pre = [op(NEW, 0, 1, 2)]

        def one():
            r = rng.random()
            return op(NOTIFY, 0, 1) if r < 0.45 else op(RESET, 0) if r < 0.65 and kind in (MEV, GMEV) else op(FOR, 0, 2, rng.choice((0, 1)))
        if not threads:
            return Prog([kind], [pre + [one() for _ in range(80)]])
        nt = rng.choice((5, 6, 7))
        ths = [[op(NOTIFY, 0, 1)] * rng.choice((1, 2)) if i == 0 else [op(WAIT, 0)] * rng.choice((1, 1, 2)) for i in range(nt)]
        rng.shuffle(ths)
        return Prog([kind], [pre] + ths + [[one() for _ in range(6)]])
    if prop == 'C18':
        ns = rng.choice((1, 2, 4))
        pre = [op(NEW, s, 1, 2, 1) for s in range(ns)]
        if not threads:
            t = []
            for _ in range(80):
                s = rng.randrange(ns)
                t.append(rng.choice((op(TRY, s), op(TRY, s), op(UNLOCK1, s), op(UNLOCK1, s), op(FOR, s, 2, 1), op(UNTIL, s, 1, 2))))
            return Prog([GMTX] * ns, [pre + t])
        ths = []
        for _ in range(rng.choice((5, 6, 7))):
            t = []
            for _ in range(rng.choice((1, 2))):
                s = rng.randrange(ns)
                t += [rng.choice((op(WAIT, s), op(WAIT, s), op(TRY, s), op(FOR, s, 2, 1))), op(UNLOCK, s)]
            ths.append(t)
        return Prog([GMTX] * ns, [pre] + ths + [[op(UNLOCK1, 0), op(TRY, ns - 1), op(TRY, 0)]])
    if prop == 'C19':
        kind = rng.choice((SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX))
        pre = [op(NEW, 0, 1, 2, 0, 2)]
        n = rng.choice((4, 5, 6)) if threads else 1
        ths = [[timed(rng, 0, 0.3) for _ in range(1 if threads else 20)] for _ in range(n)]
        if threads and kind != GMTX:
            ths.append([op(NAP, rng.choice((1, 500, 2000, 2500000))), op(NOTIFY, 0, 1)])
        return Prog([kind], [pre] + ths + [[op(FOR, 0, 2, 1), op(FOR, 0, 0, 0)]])
    if prop == 'C20':
        kind = rng.choice((GSEM, GAEV, GMEV, GMTX))
        ns, t = rng.choice((6, 12)), []
        mxs = {nm: rng.choice((0, 3, 300)) for nm in range(8)}
        for _ in range(70):
            s, nm, r = rng.randrange(ns), rng.choice((1, 2, 3, 4, 5, 6, 1, 2)), rng.random()
            if r < 0.5:
                t.append(op(NEW, s, nm, rng.randrange(4), rng.choice((0, 1, 2)) if kind == GSEM else rng.randrange(2), mxs[nm] if kind == GSEM else 0))
            elif r < 0.7:
                t += [op(DEL, s), op(LIVE, s)]
            elif r < 0.85:
                t.append(op(UNLOCK1, s) if kind == GMTX else op(NOTIFY, s, 1))
            else:
                t.append(op(TRY, s) if kind in (GSEM, GMTX) else op(FOR, s, 2, 0))
        return Prog([kind] * ns, [t])
    if prop == 'C21':
        kind = rng.choice((SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX))
        ns, t = rng.choice((5, 8, 12)), []
        mxs = {nm: rng.choice((2, 3, 0, 1, 300)) for nm in range(8)}

        def anew(s):
            nm = rng.randrange(1, 7)
            return op(NEW, s, nm, 2, 1 if kind != GMTX else rng.randrange(2), mxs[nm] if kind in (SEM, GSEM) else 0)
        t += [anew(s) for s in range(ns)]
        for _ in range(60):
            s, o, r = rng.randrange(ns), rng.randrange(ns), rng.random()
            if r < 0.15:
                t.append(anew(s))
            elif r < 0.3:
                t.append(op(MOVEC, s, o) if s != o else op(DEL, s))
            elif r < 0.65:
                t.append(op(MOVEA, s, o))
            elif r < 0.7:
                t.append(op(DEL, s))
            elif r < 0.82:
                t.append(op(UNLOCK1, s) if kind == GMTX else op(NOTIFY, s, rng.choice((1, 4)) if kind in (SEM, GSEM) else 1))
            else:
                t.append(op(TRY, s) if kind in (SEM, GSEM, GMTX) else op(FOR, s, 2, 0))
            if rng.random() < 0.3:
                t.append(op(LIVE, s))
        return Prog([kind] * ns, [t])
    # C23
    val = [0]

    def push():
        val[0] += 1
        return op(PUSH, 0, val[0], rng.randrange(2))
    if not threads:
        t, n = [op(NEW, 0)], rng.choice((30, 70, 140))
        for _ in range(rng.choice((1, 3))):
            t += [push() for _ in range(n)] + [op(EMPTY, 0)] + [op(POP, 0)] * rng.choice((n, n // 2, n - 1, n + 1))
        return Prog([QUE], [t + [op(EMPTY, 0)] + [op(POP, 0)] * 8])
    nt = rng.choice((2, 3, 4))
    ths = [[push() if rng.random() < 0.5 else op(POP, 0) for _ in range({2: 14, 3: 5, 4: 3}[nt])] for _ in range(nt)]
    return Prog([QUE], [[op(NEW, 0)] + [push() for _ in range(rng.choice((0, 0, 20, 70)))]] + ths + [[op(POP, 0)] * 90 + [op(EMPTY, 0)]])


def rand_layered(rng):
    """objects with an augmentation layer"""
    r = rng.random()
    if r < 0.3:
        p = rand_moves(rng)
    elif r < 0.5:
        p = rand_names(rng, False)
    elif r < 0.6:
        while True:
            p = rand_large(rng, rng.choice(('C16', 'C17', 'C18', 'C20', 'C21')))
            if len(p.threads) == 1:
                break
    elif r < 0.75:
        p = rand_object(rng, GMTX)
    elif r < 0.95:
        # one notifies, another one waits
        k = rng.choice((SEM, AEV, MEV, GSEM, GAEV, GMEV))
        no = [op(NOTIFY, 0, rng.choice((1, 1, 2)) if k in (SEM, GSEM) else 1) for _ in range(rng.choice((1, 2, 3)))]
        wa = [rng.choice((op(WAIT, 0), op(TRY, 0) if k in (SEM, GSEM) else op(WAIT, 0), timed(rng, 0, 0.5))) for _ in range(rng.choice((1, 2, 3)))]
        p = Prog([k], [[new(rng, k, 0, mx=0)], no, wa, [op(FOR, 0, 2, 0)]])
    else:
        p = rand_timed(rng)
        while sum(1 for t in p.threads[1:-1]) > 1:
            p = rand_timed(rng)
    p.kinds = [k + 8 for k in p.kinds]
    for t in p.threads:
        for i in range(len(t) - 1, -1, -1):
            if t[i][0] == NEW and rng.random() < 0.3:
                t.insert(i + 1, op(VALID, t[i][1]))
    return p


def small_programs(prop):
    """small concurrent programs explored with every schedule of few preemptions"""
    P = []
    n, w, t, z = op(NOTIFY, 0, 1), op(WAIT, 0), op(TRY, 0), op(FOR, 0, 2, 0)
    if prop == 'C16':
        mk = lambda init, mx: [op(NEW, 0, 1, 2, init, mx)]
        for init, mx, ths in ((0, 1, [[n], [n]]), (0, 2, [[n], [n], [w]]), (1, 2, [[t], [t]]), (0, 0, [[n], [w], [w]]), (0, 1, [[n, n], [w, w]]),
                              (0, 3, [[op(NOTIFY, 0, 2)], [w], [t]]), (0, 2, [[op(NOTIFYALL, 0)], [w], [w]]), (1, 1, [[n], [w]]), (2, 2, [[t, n], [w, t]])):
            P.append(Prog([SEM], [mk(init, mx)] + ths + [[t, t, t]], True))
        P.append(Prog([GSEM] * 2, [[op(NEW, 0, 1, 0, 1, 0), op(NEW, 1, 1, 1, 0, 0)], [op(WAIT, 0), op(NOTIFY, 1, 1)], [op(WAIT, 1), op(TRY, 0)], [t]], True))
    if prop == 'C17':
        for k in (AEV, MEV, GAEV, GMEV):
            c = [op(NEW, 0, 1, 2, 0, 0)]
            for ths in ([[n], [n]], [[n], [w]], [[n], [w], [w]], [[w], [w], [n]], [[n], [z], [w]], [[n, n], [w, w]]):
                P.append(Prog([k], [c] + ths + [[z, z]], True))
            if k in (MEV, GMEV):
                r = op(RESET, 0)
                for ths in ([[n, r], [w]], [[n], [r], [w]], [[r, n], [w]], [[n, r, n], [w, z]], [[r], [r, n]]):
                    P.append(Prog([k], [c] + ths + [[z, z]], True))
                P.append(Prog([k], [c + [n]] + [[w], [r]] + [[z, z]], True))
                P.append(Prog([k], [c + [n]] + [[w], [z]] + [[z, z]], True))
    if prop == 'C18':
        l, u = op(WAIT, 0), op(UNLOCK, 0)
        for init in (0, 1):
            c = [op(NEW, 0, 1, 0, init, 0)] + ([op(UNLOCK1, 0)] if init == 0 else [])
            for ths in ([[l, u], [l, u]], [[l, u], [t, u]], [[l, u], [z, u]], [[l, u], [op(FOR, 0, 2, 5), u]], [[l, u, l, u], [l, u]], [[t, u], [t, u], [l, u]], [[l], [l, u]]):
                P.append(Prog([GMTX], [c] + ths + [[op(UNLOCK1, 0), op(UNLOCK1, 0), t, t]], True))
        P.append(Prog([GMTX] * 2, [[op(NEW, 0, 1, 0, 1, 0), op(NEW, 1, 1, 1, 1, 0)], [l, u], [op(WAIT, 1), op(UNLOCK, 1)], [t, op(TRY, 1)]], True))
        P.append(Prog([GMTX] * 2, [[op(NEW, 0, 1, 3, 0, 0), op(NEW, 1, 1, 3, 0, 0), op(UNLOCK1, 1), op(UNLOCK1, 0), t, op(TRY, 1), op(UNLOCK1, 0)], [l, u], [op(WAIT, 1), op(UNLOCK, 1)], [t, op(TRY, 1)]], True))
    if prop == 'C19':
        for k, a, b in ((SEM, n, z), (AEV, n, z), (MEV, n, z), (GMTX, op(UNLOCK1, 0), z)):
            c = [op(NEW, 0, 1, 2, 0, 2)]
            for d in (op(FOR, 0, 2, 5), op(FOR, 0, 3, 2), op(UNTIL, 0, 1, 1500)):
                P.append(Prog([k], [c, [d], [op(NAP, 1000), a], [b]], True))
                P.append(Prog([k], [c, [d], [b]], True))
            P.append(Prog([k], [c, [op(FOR, 0, 8, 0)], [op(NAP, 5000000), a], [b]], True))
        P.append(Prog([MEV], [[op(NEW, 0, 1, 2, 0, 2), n], [w], [z], [z]], True))
    if prop == 'C20':
        for o1 in range(4):
            for o2 in range(4):
                P.append(Prog([GSEM] * 2, [[], [op(NEW, 0, 1, o1, 1, 0), op(TRY, 0)], [op(NEW, 1, 1, o2, 2, 0), op(TRY, 1)], [op(TRY, 0), op(TRY, 1), op(LIVE, 0)]], True))
                P.append(Prog([GSEM] * 3, [[op(NEW, 2, 1, 0, 1, 0)], [op(NEW, 0, 1, o1, 1, 0), op(DEL, 0)], [op(DEL, 2), op(NEW, 1, 1, o2, 1, 0)], [op(TRY, 1), op(LIVE, 0)]], True))
        P.append(Prog([GMTX] * 2, [[], [op(NEW, 0, 1, 0, 1, 0), op(TRY, 0)], [op(NEW, 1, 1, 2, 1, 0), op(TRY, 1)], [op(TRY, 0), op(TRY, 1), op(LIVE, 0)]], True))
    if prop == 'C23':
        p, q, e = (lambda v: op(PUSH, 0, v, v % 2)), op(POP, 0), op(EMPTY, 0)
        for ths in ([[p(1), p(2)], [q, q]], [[p(1)], [p(2)], [q, q]], [[p(1), q], [p(2), q]], [[p(1), e], [q, e]], [[p(1)], [q], [q, e]], [[p(1), p(2), p(3)], [q], [q]], [[p(1), q, e], [p(2), e, q]]):
            P.append(Prog([QUE], [[op(NEW, 0)]] + ths + [[e, q, q, q, q, e]], True))
    return P


def gen_spec(prop, tier='quick'):
    """what TLC enumerates for the sequential replay: (variables, operations, depth)"""
    G = []

    def g(kinds, ops, depth):
        G.append(dict(kinds=kinds, ops=[list(o) for o in ops], depth=depth))
    if prop == 'C16':
        for k in (SEM, GSEM):
            for init, mx in ((0, 0), (0, 1), (1, 2), (2, 3), (3, 3), (0, 5)):
                g([k], [op(NEW, 0, 1, 2, init, mx), op(NOTIFY, 0, 1), op(NOTIFY, 0, 2), op(NOTIFY, 0, 3), op(TRY, 0), op(WAIT, 0), op(FOR, 0, 2, 0)] + ([op(NOTIFYALL, 0)] if mx else []), 9)
    if prop == 'C17':
        for k in (AEV, GAEV, MEV, GMEV):
            g([k], [op(NEW, 0, 1, 2), op(NOTIFY, 0, 1), op(WAIT, 0), op(FOR, 0, 2, 0), op(FOR, 0, 1, 3)] + ([op(RESET, 0)] if k in (MEV, GMEV) else []), 9)
    if prop == 'C18':
        for init in (0, 1):
            g([GMTX] * 2, [op(NEW, 0, 1, 0, init), op(NEW, 1, 1, 1, init)] + [op(o, s, 2, 0) for o in (TRY, WAIT, FOR, UNLOCK1) for s in (0, 1)] + [op(DEL, 1)], 9)
    if prop == 'C20':
        for k in (GSEM, GAEV, GMEV, GMTX):
            use = {GSEM: (op(NOTIFY, 0, 1), op(TRY, 0)), GMTX: (op(UNLOCK1, 0), op(TRY, 0))}.get(k, (op(NOTIFY, 0, 1), op(FOR, 0, 2, 0)))
            ops = []
            for s in (0, 1, 2) if k in (GSEM, GMTX) else (0, 1):
                for nm in (1, 2) if s < 2 else (1,):
                    for o in range(4):
                        ops.append(op(NEW, s, nm, o, 1, 2 if k == GSEM else 0))
                ops += [op(DEL, s)] + [(u[0], s) + u[2:] for u in use]
            g([k] * (3 if k in (GSEM, GMTX) else 2), ops, 8)
    if prop == 'C21':
        for k in (SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX):
            use = {SEM: (op(NOTIFY, 0, 1), op(TRY, 0)), GSEM: (op(NOTIFY, 0, 1), op(TRY, 0)), GMTX: (op(UNLOCK1, 0), op(TRY, 0))}.get(k, (op(NOTIFY, 0, 1), op(FOR, 0, 2, 0)))
            ops = []
            for s in (0, 1, 2):
                ops += [op(NEW, s, s + 1 if s < 2 else 1, 2, 1, (2, 3, 2)[s] if k in (SEM, GSEM) else 0), op(DEL, s)] + [(u[0], s) + u[2:] for u in use]
                ops += [op(MOVEA, s, o) for o in (0, 1, 2)] + [op(MOVEC, s, o) for o in (0, 1, 2) if o != s]
            g([k] * 3, ops, 8)
    if prop == 'C28':
        for k in (SEM, AEV, MEV, GSEM, GAEV, GMEV, GMTX):
            use = {SEM: (op(NOTIFY, 0, 1), op(NOTIFY, 0, 2), op(NOTIFYALL, 0), op(TRY, 0)), GSEM: (op(NOTIFY, 0, 1), op(NOTIFY, 0, 2), op(NOTIFYALL, 0), op(TRY, 0)),
                   GMTX: (op(UNLOCK1, 0), op(TRY, 0)), MEV: (op(NOTIFY, 0, 1), op(RESET, 0)), GMEV: (op(NOTIFY, 0, 1), op(RESET, 0))}.get(k, (op(NOTIFY, 0, 1),))
            ops = []
            for s in (0, 1):
                ops += [op(NEW, s, s + 1, 2, 1, 2 if k in (SEM, GSEM) else 0), op(DEL, s)] + [(u[0], s) + u[2:] for u in use + (op(WAIT, 0), op(FOR, 0, 2, 0))]
                ops += [op(MOVEA, s, o) for o in (0, 1)] + [op(MOVEC, s, 1 - s)]
            g([k + 8] * 2, ops, 6 if tier == 'quick' else 8)
    if prop == 'C23':
        g([QUE], [op(NEW, 0)] + [op(PUSH, 0, v, v % 2) for v in (1, 2, 3)] + [op(POP, 0), op(EMPTY, 0)], 7)
    return G


def generated(prop, tier, S, res):
    """one sequential program for every transition of the specification"""
    progs = []
    specs = gen_spec(prop, tier)
    if not specs:
        return progs
    import concurrent.futures

    def one(i):
        f = S.path('gen%d.ndjson' % i)
        g = dict(specs[i])
        if tier == 'quick' and prop in ('C20', 'C21'):
            g['depth'] = 6
        with open(f, 'w') as o:
            o.write(json.dumps(g) + '\n')
        return vlib.tlc('SyncGen', 'SyncGen.cfg', S, env=dict(GEN=f), timeout=600)
    with concurrent.futures.ThreadPoolExecutor(vlib.NPROC) as ex:
        rs = list(ex.map(one, range(len(specs))))
    for g, r in zip(specs, rs):
        if r['rc'] != 0:
            log(r['out'][-2000:])
            raise vlib.CheckError('TLC failed on SyncGen')
        res.add(states=r['distinct'], transitions=r['generated'])
        hs = vlib.prints(r['out'], 'GEN')
        # a history that is the beginning of another one is replayed with it
        pre = {json.dumps(h[:-1]) for h in hs}
        live = prop in ('C20', 'C21')
        for h in hs:
            if json.dumps(h) in pre:
                continue
            t = []
            for o in h:
                t.append(tuple(o))
                if live:
                    t.append(op(LIVE, 0))
            progs.append(Prog(g['kinds'], [t]))
    res.add(generated_behaviours=len(progs))
    return progs


BUDGET = {'quick': dict(programs=900, large=60, per=24, events=600000, dfs=3000), 'thorough': dict(programs=8000, large=600, per=48, events=5000000, dfs=60000)}
FAULTS = {'C18': ['C18'], 'C20': ['UAF'], 'C21': ['UAF']}


NEVER = 2000000000


def project(prop, ev):
    """times only matter for the timed waits"""
    if prop == 'C19':
        return ev
    r = []
    for e in ev:
        if e[0] == 'c':
            e = e[:6] + ([e[6] if e[6] >= NEVER else 0, 0, 0, 0] if e[2] in ('timed', 'sleep') else [e[6], e[7], 0, 0])
        elif e[0] == 'r':
            e = e[:4] + [-1, 0]
        elif e[0] == 'st':
            continue
        r.append(e)
    return r


def run(prop, tier, seed):
    res = vlib.Result(prop, tier, seed)
    res.assumptions = ['POSIX semaphores, threads and the clock are modelled by the runtime (rt/vrt.cpp); names of semaphores live in a namespace of the run',
                       'one thread runs at a time', 'use within the limits listed in DESIGN.md']
    S = vlib.Scratch()
    try:
        _run(prop, tier, seed, res, S)
        return res.finish()
    finally:
        S.close()


def _run(prop, tier, seed, res, S):
    B = BUDGET[tier]
    exes = vlib.build('h_sync', ('dbg', 'rel'))
    log('built')
    rng = random.Random('%s/%d' % (prop, seed))
    gen = generated(prop, tier, S, res)
    small = small_programs(prop)
    n = B['programs']
    rnd = []
    for i in range(n):
        if prop == 'C16':
            rnd.append(rand_object(rng, rng.choice((SEM, SEM, GSEM))))
        elif prop == 'C17':
            rnd.append(rand_object(rng, rng.choice((AEV, MEV, AEV, MEV, GAEV, GMEV))))
        elif prop == 'C18':
            rnd.append(rand_object(rng, GMTX))
        elif prop == 'C19':
            rnd.append(rand_timed(rng))
        elif prop == 'C20':
            rnd.append(rand_names(rng, i % 2 == 0))
        elif prop == 'C21':
            rnd.append(rand_moves(rng))
        elif prop == 'C28':
            rnd.append(rand_layered(rng))
        elif prop == 'C23':
            rnd.append(rand_object(rng, QUE))
    large = [rand_large(rng, prop) for _ in range(B['large'])] if prop != 'C28' else []
    progs = small + large + gen + rnd
    txt = S.path('p.txt')
    with open(txt, 'w') as f:
        f.write('%d\n' % len(progs))
        for p in progs:
            f.write(p.text() + '\n')
    dbg, rel = [], []
    for i, p in enumerate(progs):
        if p.small:
            dbg.append(job(i, vlib.DFS, seed=1, count=B['dfs'], pctd=3 if len(p.threads) < 5 else 2, timer=0))
            rel.append(job(i, vlib.DFS, seed=1, count=B['dfs'] // 4, pctd=2, timer=0, weak=50))
        if len(p.threads) == 1:
            (dbg if i % 2 else rel).append(job(i, seed=rng.randrange(1, 1 << 40), count=1))
            continue
        big = len(small) <= i < len(small) + len(large)
        for strat, kw in ((vlib.RW, dict(rw=300)), (vlib.PCT, dict(pctd=3, pctl=60)), (vlib.RW, dict(rw=600)), (vlib.PCT, dict(pctd=4, pctl=120))):
            kw = dict(kw)
            if rng.random() < 0.4:
                kw['eintr'] = 200
            kw['timer'] = rng.choice((0, 0, 20, 100)) if prop != 'C19' else rng.choice((0, 0, 0, 50))
            if rng.random() < 0.3:
                kw['weak'] = 100
            if rng.random() < 0.2:
                kw['fine'] = 100
            (rel if rng.random() < 0.25 else dbg).append(job(i, strat, seed=rng.randrange(1, 1 << 40), count=1 if big else B['per'] // 4, **kw))
    recs, tot = [], collections.Counter()
    for v, js in (('dbg', dbg), ('rel', rel)):
        r, t = vlib.run_jobs(exes[v], txt, js, S)
        for x in r:
            x['v'] = v
        recs += r
        tot.update(t)
    log('ran', dict(tot))
    res.add(executions=tot['runs'], scheduling_points=tot['points'], programs=len(progs), exhaustive_schedule_searches=tot['dfs_complete'])

    def extra(r):
        p = progs[r['p']]
        return dict(kinds=p.kinds, nt=p.nt())
    # the directed ones first, then a fair share of the others
    rng.shuffle(recs)
    recs.sort(key=lambda r: 0 if r['p'] < len(small) + len(large) else 1)
    enforce = [prop, 'FATAL'] + FAULTS.get(prop, [])
    sched_check.judge(prop, res, S, 'SyncTrace', recs, progs, txt, None, exes, B['events'], enforce=enforce, projection=project, extra=extra)
    if prop == 'C28':
        import thread_check
        thread_check._run(prop, tier, seed, res, S)
