"""Programs written for particular situations; the small ones are explored exhaustively (every schedule
with a bounded number of preemptions)."""
from gen import *

ALL = [(31, 1)]


def programs(prop):
    res = []

    def P(tags, workers, small=True):
        p = Prog()
        p.workers = workers
        p.small = small
        if prop in tags.split():
            res.append(p)
        return p

    def end(p, *more, stop=True):
        p.clients[0] += list(more) + [(QUI,), (IDLE,)] + ([(STOP, 1)] if stop else [])

    # a task handed over while the worker falls asleep
    p = P('C01 C02 C03 C11 C13 C22 C25', ALL)
    a = p.node()
    p.clients = [[(START,), (ADD, a, 0), (WAIT, a, 0), (DON, a), (RES, a)]]
    end(p)

    # two clients, one worker
    p = P('C01 C02 C08 C10 C25', ALL)
    a, b = p.node(), p.node()
    p.clients = [[(START,), (ADD, a, 0)], [(ADD, b, 0), (WAIT, b, 0)]]
    end(p, (WAIT, a, 0))

    # two tasks, two workers, scheduled before and after the start
    p = P('C01 C02 C13', [(31, 2)])
    a, b = p.node(), p.node(wait=0)
    p.clients = [[(ADD, a, 0), (START,), (ADD, b, 0)]]
    end(p, (WAIT, a, 0))

    # the same handle from everywhere
    p = P('C01 C03 C07 C22 C25', [(31, 2)])
    a = p.node()
    p.clients = [[(START,), (ADD, a, 0), (ADD, a, 2)], [(AWT, a), (DON, a)], [(ADD, a, 1), (WAIT, a, 1)]]
    end(p)

    # waiting from two threads, the handles are dropped
    p = P('C03 C22 C25', ALL)
    a = p.node()
    p.clients = [[(START,), (ADDM, a)], [(WAIT, a, 0), (DROP, a)], [(WAIT, a, 0), (DROP, a)]]
    end(p)

    # sequences
    p = P('C02 C04 C12 C22', [(31, 2)])
    s = p.node(SEQ)
    for _ in range(3):
        p.node(TASK, par=s)
    p.clients = [[(START,), (ADD, s, 0), (WAIT, s, 0), (DON, 2), (DON, 4)]]
    end(p)

    p = P('C02 C04 C05 C12 C25', [(31, 2)])
    s = p.node(SEQ)
    a = p.node(TASK, par=s)
    f = p.node(FORK, par=s)
    p.node(TASK, par=f)
    p.node(TASK, par=f)
    z = p.node(TASK, par=s)
    p.clients = [[(START,), (ADD, s, 0), (WAIT, s, 0)], [(WAIT, f, 0), (DON, f), (WAIT, z, 0)]]
    end(p)

    # forks
    p = P('C02 C05 C12 C22 C25', [(31, 2)])
    f = p.node(FORK)
    for _ in range(3):
        p.node(TASK, par=f)
    p.clients = [[(START,), (ADD, f, 0), (WAIT, f, 0), (DON, f)]]
    end(p)

    p = P('C05 C02 C03', [(31, 2)])
    f = p.node(FORK)
    g = p.node(FORK, par=f)
    p.node(TASK, par=g)
    p.node(TASK, par=g)
    p.node(TASK, par=f)
    p.clients = [[(START,), (ADD, f, 0), (WAIT, g, 0), (WAIT, f, 0)]]
    end(p)

    # a fork of sequences: the second sequence ends at the same time as the first
    p = P('C05 C04 C25', [(31, 2)])
    f = p.node(FORK)
    for _ in range(2):
        s = p.node(SEQ, par=f)
        p.node(TASK, par=s)
        p.node(TASK, par=s)
    p.clients = [[(START,), (ADD, f, 0), (WAIT, f, 0)]]
    end(p)

    # the functions of a sequence ask about the items before
    p = P('C03 C04 C05', [(31, 2)])
    s = p.node(SEQ)
    f = p.node(FORK, par=s)
    p.node(TASK, par=f)
    p.node(TASK, par=f)
    q = p.node(SEQ, par=s)
    p.node(TASK, par=q)
    p.node(TASK, par=q, body=[(DON, f)])
    p.node(TASK, par=s, body=[(DON, q), (DON, f)])
    p.clients = [[(START,), (ADD, s, 0), (WAIT, s, 0)]]
    end(p)
    p = P('C03 C04 C26', [(31, 1)])
    s = p.node(SEQ)
    f = p.node(FORK, par=s)
    p.node(TASK, par=f)
    p.node(TASK, par=f)
    t = p.node(TASK, par=s, body=[(DON, f)])
    p.node(TASK, par=s, body=[(DON, t), (RES, t, 1)])
    p.clients = [[(ST, s, 1), (START,)]]
    end(p)

    # the maximum is reached again after two members have ended together
    for mx, n in ((2, 4), (3, 5)):
        for small in (True, False):
            p = P('C06', [(31, mx)], small=small)
            gs = [p.gate() for _ in range(n - 2)]
            f = p.node(FORK, max=mx)
            p.node(TASK, par=f)
            p.node(TASK, par=f)
            for g in gs:
                p.node(TASK, par=f, body=[(GBLOCK, g)])
            p.clients = [[(START,), (ADD, f, 0), (QUI,)] + [(GOPEN, g) for g in gs] + [(WAIT, f, 0)]]
            end(p)

    # active waits
    p = P('C07 C12 C05 C01', ALL)
    f = p.node(FORK)
    for _ in range(2):
        p.node(TASK, par=f)
    p.clients = [[(AWT, f), (DON, f), (START,)]]
    end(p)

    p = P('C07 C12 C05 C01 C25', ALL)
    f = p.node(FORK)
    for _ in range(2):
        p.node(TASK, par=f)
    p.clients = [[(START,), (ADD, f, 0), (AWT, f), (DON, f)]]
    end(p)

    p = P('C07 C03', ALL)
    a, b = p.node(), p.node()
    p.nodes[b]['body'] = [(ADD, a, 0), (AWT, a)]
    p.clients = [[(START,), (ADD, b, 0), (WAIT, b, 0)]]
    end(p)

    # from inside a worker, a fork
    p = P('C07 C02', ALL)
    f = p.node(FORK)
    p.node(TASK, par=f)
    p.node(TASK, par=f)
    b = p.node()
    p.nodes[b]['body'] = [(ADD, f, 0), (AWT, f)]
    p.clients = [[(START,), (ADD, b, 0), (WAIT, b, 0)]]
    end(p)

    # two active waiters
    p = P('C07 C05', ALL)
    f = p.node(FORK)
    for _ in range(3):
        p.node(TASK, par=f)
    p.clients = [[(AWT, f)], [(AWT, f), (DON, f)]]
    end(p)

    # limited forks
    for mx, nw, n in ((1, 2, 2), (1, 2, 3), (2, 3, 4), (2, 2, 3), (3, 3, 4), (4, 2, 3)):
        p = P('C06 C02' if n < 4 else 'C06', [(31, nw)], small=n < 4)
        f = p.node(FORK, max=mx)
        for _ in range(n):
            p.node(TASK, par=f)
        p.clients = [[(START,), (ADD, f, 0), (WAIT, f, 0)]]
        end(p)
        p = P('C06 C07', [(31, nw)], small=n < 4)
        f = p.node(FORK, max=mx)
        for _ in range(n):
            p.node(TASK, par=f)
        p.clients = [[(START,), (ADD, f, 0), (AWT, f)], [(AWT, f)]]
        end(p)
    p = P('C06', [(31, 3)], small=False)
    f = p.node(FORK, max=2)
    for _ in range(3):
        s = p.node(SEQ, par=f)
        p.node(TASK, par=s)
        p.node(TASK, par=s)
    p.clients = [[(START,), (ADD, f, 0), (WAIT, f, 0)]]
    end(p)
    p = P('C06', [(31, 3)], small=False)
    f = p.node(FORK, max=2)
    for _ in range(2):
        g = p.node(FORK, par=f, max=1)
        p.node(TASK, par=g)
        p.node(TASK, par=g)
    p.node(TASK, par=f)
    p.clients = [[(START,), (ADD, f, 0), (AWT, f)]]
    end(p)

    # priorities: everything is there before the worker starts
    for prios in ((4, 2, 0), (3, 3, 1), (2, 2, 2), (4, 0, 4, 0), (1, 3, 2, 4, 0), (0, 1, 0, 1)):
        p = P('C08', ALL, small=len(prios) < 4)
        ns = [p.node(TASK, q) for q in prios]
        p.clients = [[(ADD, n, 0) for n in ns] + [(START,)]]
        end(p)
        p = P('C08', ALL, small=False)
        g = p.gate()
        b = p.node(TASK, 2, body=[(GBLOCK, g)])
        ns = [p.node(TASK, q) for q in prios]
        p.clients = [[(START,), (ADD, b, 0), (QUI,)] + [(ADD, n, 0) for n in ns] + [(GOPEN, g)]]
        end(p)
        # several workers serving different priorities
        for ws in ([(0b00111, 1), (0b11100, 1)], [(0b10101, 1)], [(0b11111, 1), (0b00001, 1)]):
            p = P('C08 C09', ws + ([(0b01010, 1)] if len(ws) == 1 else []), small=False)
            ns = [p.node(TASK, q) for q in prios]
            p.clients = [[(ADD, n, 0) for n in ns] + [(START,)]]
            end(p)
    # members of a fork go in order
    p = P('C08', ALL)
    f = p.node(FORK)
    for _ in range(4):
        p.node(TASK, par=f)
    p.clients = [[(START,), (ADD, f, 0)]]
    end(p)

    # workers and priorities
    for ws in ([(1 << k, 1) for k in range(5)], [(0b00011, 1), (0b11100, 1)], [(0b00111, 2), (0b11000, 1)], [(0b01111, 1), (0b10000, 1)],
               [(0b01110, 1), (0b10001, 1)], [(0b11110, 1), (0b00001, 1)]):
        p = P('C09 C08', ws, small=False)
        ns = [p.node(TASK, k) for k in range(5)]
        s = p.node(SEQ, 1)
        p.node(TASK, INHERIT, par=s)
        f = p.node(FORK, INHERIT, par=s)
        p.node(TASK, INHERIT, par=f)
        p.node(TASK, 3, par=f)
        p.node(TASK, INHERIT, par=f)
        p.clients = [[(START,)] + [(ADD, n, 0) for n in ns] + [(ADD, s, 0)] + [(WCNT, k) for k in range(5)] + [(WTOT,)]]
        end(p)
    p = P('C09', [(0b00100, 1), (0b00010, 1), (0b11001, 1)])
    f = p.node(FORK, 1)
    p.node(TASK, INHERIT, par=f)
    p.node(TASK, INHERIT, par=f)
    p.node(TASK, 2, par=f)
    p.clients = [[(START,), (ADD, f, 0), (WAIT, f, 0)]]
    end(p)

    # stopping
    p = P('C10 C13 C02 C25', ALL)
    a = p.node()
    p.clients = [[(START,), (STOP,), (DON, a), (START,)], [(ADD, a, 0)]]
    end(p, (WAIT, a, 0))
    p = P('C10 C13', [(31, 2)])
    a, b = p.node(), p.node()
    p.clients = [[(START,), (ADD, a, 0), (ADD, b, 0), (STOP,), (START,)]]
    end(p, (WAIT, a, 0), (WAIT, b, 0))
    p = P('C10 C07', ALL)
    a = p.node()
    p.clients = [[(START,), (ADD, a, 0), (STOP,), (AWT, a), (DON, a)]]
    p = P('C10', ALL)
    s = p.node(SEQ)
    p.node(TASK, par=s)
    p.node(TASK, par=s)
    p.clients = [[(START,), (ADD, s, 0), (STOP,), (DON, s), (START,)]]
    end(p, (WAIT, s, 0))
    p = P('C10 C13', [(31, 3)], small=False)
    p.clients = [[(START,), (STOP,), (START,), (STOP,)]]
    p = P('C10', [(31, 2)])
    f = p.node(FORK)
    for _ in range(3):
        p.node(TASK, par=f)
    p.clients = [[(START,), (ADD, f, 0), (STOP,), (START,)]]
    end(p, (WAIT, f, 0))
    # never stopped by the user
    p = P('C10 C22', [(31, 2)])
    a = p.node()
    p.clients = [[(START,), (ADD, a, 0)]]
    p = P('C10 C22', [(31, 1)])
    s = p.node(SEQ)
    p.node(TASK, par=s)
    p.node(TASK, par=s)
    p.clients = [[(START,), (ADDM, s)]]

    # idleness
    p = P('C11 C25', ALL)
    a = p.node()
    p.clients = [[(START,), (ADD, a, 0), (IDLE,), (IDLE,)]]
    end(p)
    p = P('C11', [(31, 2)])
    a = p.node()
    p.clients = [[(START,), (ADD, a, 0)], [(IDLE,), (IDLE,)]]
    end(p)
    p = P('C11', ALL)
    a, b = p.node(), p.node()
    p.clients = [[(START,), (ADD, a, 0), (ADD, b, 0)], [(IDLE,), (IDLE,)]]
    end(p)
    p = P('C11', ALL)
    s = p.node(SEQ)
    p.node(TASK, par=s)
    p.node(TASK, par=s)
    p.clients = [[(START,), (ADD, s, 0), (IDLE,), (WAIT, s, 0), (IDLE,)]]
    end(p)
    p = P('C11', [(31, 2)], small=False)
    p.timed = 1
    a = p.node(TASK, body=[(SLEEP, 3000)])
    p.clients = [[(START,), (ADD, a, 0), (WUI, 500, 50000), (IDLE,), (QUI,), (WUI, 500, 50000)]]
    end(p)
    p = P('C11', [(31, 2)], small=False)
    p.timed = 1
    a = p.node(TASK, body=[(SLEEP, 30000)])
    p.clients = [[(START,), (ADD, a, 0), (WUI, 500, 3000), (IDLE,)]]
    end(p)
    p = P('C11', [(31, 1)], small=False)
    p.timed = 1
    g = p.gate()
    a = p.node(TASK, body=[(GBLOCK, g)])
    b = p.node()
    p.clients = [[(START,), (ADD, a, 0), (ADD, b, 0), (WUI, 500, 5000), (IDLE,), (GOPEN, g), (WUI, 500, 50000)]]
    end(p)

    # parallel loops
    for v in range(14):
        for ws in ([(31, 2)], [(31, 1)]):
            p = P('C14 C12' if ws[0][1] == 2 else 'C14', ws, small=v in (2, 3))
            k = p.pfor(v, 0, 3, 2, 1, 2)
            p.clients = [[(START,), (PFOR, k)]]
            end(p)
    for first, last, mb, gr in ((0, 0, 2, 1), (0, 1, 4, 1), (-2, 3, 2, 2), (3, 8, 3, 2), (1, 7, 4, 3)):
        for v in (1, 2, 3, 4):
            p = P('C14', [(31, 3)], small=False)
            k = p.pfor(v, first, last, mb, gr, 2)
            p.clients = [[(START,), (PFOR, k)]]
            end(p)
    # from inside a task, no other worker
    p = P('C14 C07 C09', ALL, small=False)
    k = p.pfor(2, 0, 4, 2, 1, 2)
    a = p.node(TASK, body=[(PFOR, k)])
    p.clients = [[(START,), (ADD, a, 0), (WAIT, a, 0)]]
    end(p)
    p = P('C14 C09', [(0b00001, 1), (0b11110, 1)], small=False)
    k = p.pfor(2, 0, 4, 2, 1, 0)
    k2 = p.pfor(3, 0, 4, 2, 1, 3)
    p.clients = [[(START,), (PFOR, k), (PFOR, k2)]]
    end(p)

    # the example of the documentation, and the other ways to create and schedule at once
    for v in range(7):
        for prio in ((2, 0) if v < 3 else (2,)):
            p = P('C01 C03 C12 C22' if v == 0 else 'C01', [(31, 2)], small=v == 0)
            a = p.node(late=1, prio=prio)
            b = p.node(late=1, wait=0, prio=prio)
            s = p.node(SEQ, late=1, prio=prio)
            for w in (0, 1, 0):
                p.node(TASK, par=s, wait=w)
            f = p.node(FORK, late=1, prio=prio)
            for w in (0, 1, 0, 0)[v % 3:]:
                p.node(TASK, par=f, wait=w)
            p.clients = [[(START, 1), (MAKE, a, v), (WAIT, a, 0), (MAKE, b, v), (MAKE, s, v), (WAIT, s, 0), (MAKE, f, v), (WAIT, f, 0), (DON, f)]]
            end(p)

    # single-threaded execution
    for kind in (TASK, SEQ, FORK):
        p = P('C26 C12 C01', ALL)
        s = p.node(kind)
        if kind != TASK:
            p.node(TASK, par=s)
            p.node(TASK, par=s)
        p.clients = [[(ST, s, 1), (DON, s), (WAIT, s, 0), (START,)]]
        end(p)
        p = P('C26 C01 C25', ALL)
        s = p.node(kind)
        if kind != TASK:
            p.node(TASK, par=s)
            p.node(TASK, par=s)
        p.clients = [[(START,), (ADD, s, 0), (ST, s, 0), (DON, s), (WAIT, s, 0)]]
        end(p)
    p = P('C26', ALL, small=False)
    s = p.node(SEQ)
    p.node(TASK, par=s)
    f = p.node(FORK, par=s)
    p.node(TASK, par=f)
    p.node(TASK, par=f)
    q = p.node(SEQ, par=f)
    p.node(TASK, par=q)
    p.node(TASK, par=s)
    p.clients = [[(ST, s, 1)] + [(DON, n) for n in range(1, 8)] + [(START,)]]
    end(p)

    # lifetimes: everything is dropped at once
    for kind in (TASK, SEQ, FORK):
        for w in (0, 1):
            p = P('C22', [(31, 2)])
            s = p.node(kind, wait=w)
            if kind != TASK:
                p.node(TASK, par=s, wait=w)
                p.node(TASK, par=s, wait=w)
            p.clients = [[(START,), (ADDM, s)]]
            end(p)
    p = P('C22 C25', [(31, 2)])
    a = p.node()
    b = p.node(TASK, body=[(ADDM, a)])
    p.clients = [[(START,), (ADDM, b)]]
    end(p)
    p = P('C22', [(31, 1)], small=False)
    s = p.node(SEQ)
    f = p.node(FORK, par=s)
    p.node(TASK, par=f)
    p.node(TASK, par=f)
    p.node(TASK, par=s)
    p.clients = [[(START,), (ADD, s, 0), (DROP, s), (QUI,), (DON, 3), (DROP, 3), (QUI,)]]
    end(p)
    return res
