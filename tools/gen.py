"""Generator of scheduler programs.

A program is plain data: workers, a forest of tasks and groups, parallel loops, the operations of
the clients and of the functions of the tasks.  It is written as text for the harness and as JSON
for the specification.  Programs are built so that, on a correct library, every call returns.
"""
import json
import random

ADD, WAIT, AWT, DON, RES, ST, IDLE, WUI, DROP, START, STOP, QUI, PFOR, SLEEP, GBLOCK, GOPEN, WCNT, WFR, ADDM, YIELD, WTOT, MAKE = range(1, 23)
HANDLE_OPS = {ADD, WAIT, AWT, DON, RES, ST, DROP, WFR, ADDM, MAKE}
TASK, SEQ, FORK = 0, 1, 2
INHERIT = 5


class Prog:
    def __init__(self, name=''):
        self.name = name
        self.small = False
        self.gates = 0
        self.timed = 0
        self.workers = []        # (mask, count)
        self.nodes = [None]      # dict(kind, prio, wait, par, max, body)
        self.pfors = []          # dict(variant, first, last, maxb, grab, prio)
        self.clients = [[]]

    def node(self, kind=TASK, prio=2, wait=1, par=0, max=0, body=None, late=0):
        self.nodes.append(dict(kind=kind, prio=prio, wait=wait, par=par, max=max, late=late, body=body or []))
        return len(self.nodes) - 1

    def pfor(self, variant, first, last, maxb, grab=1, prio=2):
        self.pfors.append(dict(variant=variant, first=first, last=last, maxb=maxb, grab=grab, prio=prio))
        return len(self.pfors) - 1

    def gate(self):
        self.gates += 1
        return self.gates - 1

    def nworkers(self, prio=None):
        return sum(c for m, c in self.workers if prio is None or m >> prio & 1)

    # -- output
    def text(self):
        o = ['%d %d' % (self.gates, self.timed), str(len(self.workers))]
        o += ['%d %d' % w for w in self.workers]
        o.append(str(len(self.nodes) - 1))

        def ops(l):
            return str(len(l)) + ''.join('  %d %d %d' % (tuple(x) + (0, 0))[:3] for x in l)
        for n in self.nodes[1:]:
            o.append('%d %d %d %d %d %d' % (n['kind'], n['prio'], n['wait'], n['par'], n['max'], n['late']))
            o.append(ops(n['body']))
        o.append(str(len(self.pfors)))
        for d in self.pfors:
            o.append('%d %d %d %d %d %d' % (d['variant'], d['first'], d['last'], d['maxb'], d['grab'], d['prio']))
        o.append(str(len(self.clients)))
        for c in self.clients:
            o.append(ops(c))
        return '\n'.join(o) + '\n'

    def spec(self):
        masks = []
        for m, c in self.workers:
            masks += [m] * c
        holds = set()
        for i, c in enumerate(self.clients):
            for o in c:
                if o[0] in HANDLE_OPS:
                    holds.add((-(i + 1), o[1]))
        for n in range(1, len(self.nodes)):
            for o in self.nodes[n]['body']:
                if o[0] in HANDLE_OPS:
                    holds.add((n, o[1]))
        pf = []
        for d in self.pfors:
            cnt = max(0, d['last'] - d['first'])
            v = d['variant']
            maxb = self.nworkers(2) if v in (0, 1, 4, 6, 8, 12) else d['maxb']
            pf.append(dict(first=d['first'], last=d['last'], nb=min(cnt, maxb), prio=2 if v in (0, 1, 4, 6, 8, 12) else d['prio'], aw=0 if v == 9 else 1))
        return dict(workers=masks,
                    nodes=[dict(kind=n['kind'], prio=n['prio'], wait=n['wait'], par=n['par'], max=n['max'], late=n['late']) for n in self.nodes[1:]],
                    pfors=pf, holds=sorted(holds), nt=1, nclients=len(self.clients))


def finish(p, restart=False):
    """End of the main client: everything open, started, at rest, stopped."""
    m = p.clients[0]
    for g in range(p.gates):
        m.append((GOPEN, g))
    m.append((QUI,))
    m.append((IDLE,))
    return p


MASKS1 = [[(31, 1)], [(31, 2)], [(31, 3)]]
MASKS2 = [[(0b00111, 1), (0b11100, 1)], [(0b00001, 1), (0b11111, 1)], [(0b11110, 1), (0b00001, 1)],
          [(0b00111, 1), (0b11000, 1)], [(0b00011, 1), (0b11110, 2)], [(0b10101, 1), (0b01110, 1), (0b11111, 1)],
          [(0b11111, 1), (0b00100, 1)],
          [(0b01111, 1), (0b10000, 1)], [(0b01110, 1), (0b00001, 1), (0b10000, 1)], [(0b01111, 1), (0b11110, 1)],
          [(0b00001, 1), (0b00010, 1), (0b00100, 1), (0b01000, 1), (0b10000, 1)]]

DEFAULT = dict(p_spec_workers=0.3, max_nodes=9, max_roots=4, p_group=0.6, p_fork=0.5, p_limited=0.3, max_depth=3,
               p_inherit=0.5, p_wait=0.75, clients=(1, 2), p_awt=0.35, p_st=0.12, p_dup=0.3, p_drop=0.4, p_gate=0.3,
               p_stop=0.25, p_idle=0.25, p_wui=0.05, p_pfor=0.15, p_body_ops=0.25, p_timed=0.1, p_member_ops=0.0,
               p_query=0.3, p_wcnt=0.1, p_late_start=0.4, p_restart=0.3, p_nostop=0.2, one_prio=0.3, p_lone=0.1, p_workers1=0.35, p_late=0.15)


def rand_prog(rng, prof=None, name=''):
    o = dict(DEFAULT)
    o.update(prof or {})
    R = rng.random
    p = Prog(name)
    if R() < o['p_spec_workers']:
        p.workers = list(rng.choice(MASKS2))
    else:
        p.workers = list(MASKS1[0] if R() < o['p_workers1'] else rng.choice(MASKS1[1:]))
    p.timed = 1 if R() < o['p_timed'] else 0
    oneprio = rng.randrange(5) if R() < o['one_prio'] else None

    def prio():
        return oneprio if oneprio is not None else rng.randrange(5)

    # forest, numbered in preorder
    budget = rng.randint(2, o['max_nodes'])
    roots = []

    def build(par, depth):
        nonlocal budget
        budget -= 1
        inh = par != 0 and R() < o['p_inherit']
        pr = INHERIT if inh else prio()
        if depth < o['max_depth'] and budget > 0 and R() < o['p_group']:
            fork = R() < o['p_fork']
            n = p.node(FORK if fork else SEQ, pr, 1 if R() < o['p_wait'] else 0, par,
                       rng.randint(1, 3) if fork and R() < o['p_limited'] else 0)
            k = rng.randint(1, 4 if depth == 0 else 3)
            for _ in range(k):
                build(n, depth + 1)
                if budget <= 0:
                    break
            return n
        return p.node(TASK, pr, 1 if R() < o['p_wait'] else 0, par)
    nroots = rng.randint(1, o['max_roots'])
    while len(roots) < nroots and (budget > 0 or not roots):
        roots.append(build(0, 0))
    N = len(p.nodes) - 1
    kids = {n: [m for m in range(1, N + 1) if p.nodes[m]['par'] == n] for n in range(1, N + 1)}

    def desc(n):
        r = [n]
        for m in kids[n]:
            r += desc(m)
        return r
    rootidx = {}
    for i, r in enumerate(roots):
        for m in desc(r):
            rootidx[m] = i

    def plain_fork(n):
        return p.nodes[n]['kind'] == FORK and p.nodes[n]['max'] == 0 and all(p.nodes[m]['kind'] == TASK for m in kids[n])

    nclients = rng.randint(*o['clients'])
    if o.get('force_clients'):
        nclients = o['force_clients']
    lists = [[] for _ in range(nclients + 1)]   # 0: main
    tasks = [n for n in range(1, N + 1) if p.nodes[n]['kind'] == TASK]

    # gates: some functions block until the main client opens the gate
    if R() < o['p_gate']:
        for _ in range(rng.randint(1, 2)):
            g = p.gate()
            p.nodes[rng.choice(tasks)]['body'].append((GBLOCK, g))

    # activation and waits, in the order of the roots
    used = {}
    for i, r in enumerate(roots):
        nd = p.nodes[r]
        lone = nd['kind'] == TASK and R() < o['p_lone']
        if lone:
            for c in range(nclients + 1):
                if R() < 0.3:
                    lists[c].append((DON, r))
            continue
        if R() < o['p_late'] and nd['max'] == 0 and len(kids[r]) <= 4:
            # created by the call that schedules it: only the caller has a handle
            nd['late'] = 1
            c = rng.randrange(nclients + 1)
            l = lists[c]
            l.append((MAKE, r, rng.randrange(7)))
            if nd['kind'] != TASK or nd['wait']:
                if R() < o['p_dup']:
                    l.append((ADD, r, rng.choice((0, 1, 2))))
                if c and nd['wait'] and R() < 0.6:
                    l.append((AWT, r) if nd['kind'] != SEQ and R() < o['p_awt'] else (WAIT, r, 0))
                if R() < o['p_query'] * 0.6:
                    l.append((DON, r))
            for c in range(1, nclients + 1):
                for n in desc(r)[1:]:
                    if p.nodes[n]['wait'] and R() < 0.12:
                        lists[c].append((WAIT, n, rng.randrange(2)))
                    if R() < o['p_query'] * 0.3:
                        lists[c].append((DON, n))
            continue
        acts = []
        st = R() < o['p_st']
        can_awt = nd['wait'] and nd['kind'] != SEQ
        if st:
            acts.append(ST)
            if R() < 0.5:
                acts.append(ADD)
        elif can_awt and R() < o['p_awt'] and (nd['kind'] == TASK or plain_fork(r)):
            acts.append(AWT)
            if R() < 0.6:
                acts.append(ADD)
            if R() < 0.3:
                acts.append(AWT)
        else:
            acts.append(ADD)
            if can_awt and R() < o['p_awt']:
                acts.append(AWT)
        while R() < o['p_dup']:
            acts.append(ADD)
        rng.shuffle(acts)
        must = True
        for a in acts:
            # somewhere: a client, or the function of a task of an earlier root (clients only for the first activation)
            earlier = [t for t in tasks if rootidx[t] < i and not any(x[0] == GBLOCK for x in p.nodes[t]['body'])]
            if not must and earlier and R() < o['p_body_ops'] and a == ADD:
                t = rng.choice(earlier)
                p.nodes[t]['body'].append((ADD, r, rng.choice((0, 1, 2))))
                continue
            c = rng.randrange(nclients + 1)
            if c == 0 and a in (AWT, ST) and (a == ST or nd['kind'] != TASK or True):
                # the main client must not block before the end
                if a == ST and must and len(acts) == 1:
                    c = rng.randrange(1, nclients + 1) if nclients else 0
                else:
                    c = rng.randrange(1, nclients + 1) if nclients else 0
            lists[c].append((a, r, rng.choice((0, 1, 2)) if a == ADD else 0))
            must = False
            used.setdefault(c, set()).add(r)
        # later functions may help
        later = [t for t in tasks if rootidx[t] > i and not any(x[0] == GBLOCK for x in p.nodes[t]['body'])]
        if not st and nd['wait'] and (nd['kind'] == TASK or plain_fork(r)) and later and R() < o['p_body_ops']:
            p.nodes[rng.choice(later)]['body'].append((AWT, r))
        # waits of the clients
        for c in range(1, nclients + 1):
            for n in desc(r):
                if p.nodes[n]['wait'] and R() < (0.35 if n == r else 0.12):
                    if p.nodes[n]['kind'] == TASK and R() < 0.3 and not st:
                        lists[c].append((WFR, n, rng.randrange(2)))
                    else:
                        lists[c].append((WAIT, n, rng.randrange(2)))
                    if p.nodes[n]['kind'] == TASK and R() < 0.3:
                        lists[c].append((RES, n, 1))
                if R() < o['p_query'] * 0.3:
                    lists[c].append((DON, n))
        if R() < o['p_member_ops'] and nd['kind'] == FORK and nd['max'] == 0 and not st:
            for m in kids[r]:
                if p.nodes[m]['kind'] == TASK and nclients:
                    c = rng.randrange(1, nclients + 1)
                    if R() < 0.5:
                        lists[c].append((ADD, m, 0))
                    elif p.nodes[m]['wait']:
                        lists[c].append((AWT, m))
    # the functions of a sequence ask about what came before
    for n in range(1, N + 1):
        if p.nodes[n]['kind'] == SEQ:
            for m in kids[n][1:]:
                if R() < o['p_query'] * 0.5:
                    t = rng.choice([x for x in desc(m) if x in tasks])
                    b = p.nodes[t]['body']
                    b.insert(rng.randrange(len(b) + 1), (DON, rng.choice([x for x in kids[n] if x < m])))
    # parallel loops
    if R() < o['p_pfor']:
        for _ in range(rng.randint(1, 2)):
            v = rng.randrange(14)
            first = rng.choice((0, 0, 1, -2)) if v in (1, 2, 3, 4, 9, 10, 12, 13) else 0
            cnt = rng.choice((0, 1, 2, 3, 4, 5, 6))
            if v == 9 and cnt == 0:
                cnt = 2
            k = p.pfor(v, first, first + cnt, rng.randint(1, 4), rng.randint(1, 3), prio())
            if v == 9:
                if nclients:
                    lists[rng.randrange(1, nclients + 1)].append((PFOR, k))
            elif R() < 0.4:
                t = rng.choice(tasks)
                p.nodes[t]['body'].append((PFOR, k))
            else:
                c = rng.randrange(nclients + 1)
                lists[c].append((PFOR, k))
    # queries
    for c in range(nclients + 1):
        if R() < o['p_idle']:
            lists[c].insert(rng.randrange(len(lists[c]) + 1), (IDLE,))
        if R() < o['p_wui']:
            lists[c].insert(rng.randrange(len(lists[c]) + 1), (WUI, 500, 50000))
        if R() < o['p_wcnt']:
            lists[c].insert(rng.randrange(len(lists[c]) + 1), (WCNT, rng.randrange(5)))
    if p.timed:
        for t in tasks:
            if R() < 0.4:
                p.nodes[t]['body'].append((SLEEP, rng.choice((10, 700, 3000))))
    # handles dropped after their last use
    for c in range(nclients + 1):
        last = {}
        for j, x in enumerate(lists[c]):
            if x[0] in HANDLE_OPS:
                last[x[1]] = j
        out = []
        for j, x in enumerate(lists[c]):
            if x[0] in HANDLE_OPS and last[x[1]] == j and R() < o['p_drop']:
                if x[0] == ADD:
                    out.append((ADDM, x[1]))
                else:
                    out += [x, (DROP, x[1])]
            else:
                out.append(x)
        lists[c] = out
    # the main client
    m = lists[0]
    pre = []
    start_at = rng.randrange(len(m) + 1) if R() < o['p_late_start'] else 0
    m.insert(start_at, (START,))
    if R() < o['p_late_start'] and start_at > 0:
        m.insert(start_at, (QUI,))
    p.clients = [m] + [l for l in lists[1:] if l]
    if p.gates:
        if R() < 0.6:
            m.append((QUI,))
        if R() < 0.4:
            m.append((IDLE,))
        for g in range(p.gates):
            m.append((GOPEN, g))
            if R() < 0.3:
                m.append((QUI,))
    if R() < o['p_stop']:
        if not p.gates:
            pos = rng.randrange(m.index((START,)) + 1, len(m) + 1)
        else:
            pos = len(m)
        m[pos:pos] = [(STOP,)] + ([(IDLE,)] if R() < 0.3 else []) + ([(QUI,)] if R() < 0.3 else []) + [(START,)]
    # end: everything has to be over
    for r in roots:
        if R() < 0.3 and p.nodes[r]['wait'] and not p.nodes[r]['late'] and any(x[0] in (ADD, AWT, ST, ADDM) and x[1] == r for l in p.clients for x in l) and not any(x[0] in (DROP, ADDM) and x[1] == r for x in m):
            m.append((WAIT, r, 0))
            if R() < 0.3:
                m.append((DON, r))
    m.append((QUI,))
    m.append((IDLE,))
    if R() < o['p_wui']:
        m += [(QUI,), (WUI, 500, 50000)]
    if R() < o['p_query']:
        for n in range(1, N + 1):
            if R() < 0.3 and not p.nodes[n]['late'] and not any(x[0] in (DROP, ADDM) and x[1] == n for x in m):
                m.append((DON, n))
    if R() < o['p_restart']:
        m += [(STOP,), (START,), (QUI,), (IDLE,)]
    if R() >= o['p_nostop']:
        m.append((STOP, rng.randrange(2)))
    # with the default configuration of workers
    ops = [x for l in p.clients for x in l] + [x for n in p.nodes[1:] for x in n['body']]
    if len(p.workers) == 1 and m[0] == (START,) and R() < 0.4 and not any(x[0] in (PFOR, WCNT, WTOT) for x in ops) and sum(x[0] == START for x in ops) == 1:
        m[m.index((START,))] = (START, 1)
    return p


BIG = {'C04': 'seq seq seq deep deep st st wide', 'C05': 'fork fork fork deep deep wide', 'C06': 'limit limit limit', 'C07': 'awt awt', 'C08': 'many many', 'C02': 'blocked blocked blocked', 'C09': 'workers deep deep many', 'C10': 'restarts many', 'C11': 'idle idle idle many fork restarts',
       'C12': 'fork seq deep', 'C13': 'restarts workers', 'C14': 'loop', 'C26': 'st st', 'C22': 'fork seq deep many st', 'C01': 'dup many fork seq', 'C03': 'waiters fork seq'}


def big_prog(rng, prop):
    """More of everything."""
    p = Prog('big')
    kind = rng.choice((BIG.get(prop, '') + ' fork limit seq deep many workers restarts dup waiters blocked idle').split()) if prop != 'C14' else 'loop'
    some = lambda: rng.choice((2, 2, 3, 5, 8))
    p.workers = [(31, some())]
    prio = rng.randrange(5)
    m = [(START,)]
    p.clients = [m]
    wait = lambda: 1 if rng.random() < 0.6 else 0
    if kind in ('fork', 'limit', 'awt'):
        n = rng.choice((9, 17, 33, 40, 65) if kind != 'limit' else (9, 17, 33))
        mx = rng.choice((1, 2, 5, n - 1, n, n + 3)) if kind == 'limit' else 0
        f = p.node(FORK, prio, 1, 0, mx)
        for _ in range(n):
            p.node(TASK, rng.choice((INHERIT, rng.randrange(5))), wait(), f)
        r = rng.random()
        if kind == 'awt':
            m.insert(rng.randrange(2), (AWT, f))
        else:
            m += [(ADD, f, 0), (WAIT, f, 0), (DON, f)] if r < 0.5 else [(ADD, f, 0), (AWT, f)] if r < 0.8 else [(ADDM, f)]
    elif kind == 'wide':
        # more members than fit a small counter
        f = p.node(rng.choice((FORK, FORK, SEQ)), prio, 1)
        n = rng.choice((130, 257))
        for _ in range(n):
            p.node(TASK, INHERIT, 0, f)
        m += [(ADD, f, 0), (WAIT, f, 0), (DON, f)]
    elif kind == 'seq':
        f = p.node(SEQ, prio, 1)
        for _ in range(rng.choice((9, 17, 33))):
            if rng.random() < 0.1:
                g = p.node(FORK, INHERIT, wait(), f)
                for _ in range(rng.choice((1, 2, 3))):
                    p.node(TASK, INHERIT, wait(), g)
            else:
                p.node(TASK, rng.choice((INHERIT, rng.randrange(5))), wait(), f)
        m += [(ADD, f, 0), (WAIT, f, 0), (DON, f)] if rng.random() < 0.7 else [(ADDM, f)]
    elif kind in ('deep', 'st'):
        def build(par, d):
            g = p.node(rng.choice((FORK, SEQ)), INHERIT if par else prio, 1 if not par else wait(), par)
            at = rng.randrange(3) if d else 9
            for i in range(rng.choice((2, 3)) if d else 2):
                if i == at:
                    build(g, d - 1)
                else:
                    p.node(TASK, INHERIT, wait(), g)
            if at >= 2 and d:
                build(g, d - 1)
            return g
        f = build(0, rng.choice((4, 6, 9)))
        if kind == 'deep' and prop == 'C09':
            p.workers = [(1 << prio, some()), (31 & ~(1 << prio), some())]
        if kind == 'st':
            m[:] = [(ST, f, 1), (DON, f), (START,)] if rng.random() < 0.6 else [(START,), (ADD, f, 0), (ST, f, 0), (WAIT, f, 0)]
        else:
            m += [(ADD, f, 0), (WAIT, f, 0), (DON, f)] if rng.random() < 0.7 else [(ADDM, f)]
    elif kind == 'many':
        k = rng.choice((1, 2, 3))
        p.clients += [[] for _ in range(k - 1)]
        if rng.random() < 0.5:
            p.workers = [(31, 1)]
        order = list(range(rng.choice((12, 20, 35))))
        one = rng.random() < 0.5
        for i in order:
            a = p.node(TASK, prio if one else rng.randrange(5), 1)
            p.clients[i % k].append((ADD, a, rng.randrange(2)))
        if rng.random() < 0.5:
            m.remove((START,))
            m.append((START,))
    elif kind == 'workers':
        masks = [rng.choice((1, 2, 4, 8, 16, 3, 6, 12, 24, 14, 15, 30, 31)) for _ in range(rng.choice((6, 9)))]
        p.workers = [(x, rng.choice((1, 1, 2))) for x in masks] + [(31, 1)]
        if rng.random() < 0.3:
            p.workers = [(31, rng.choice((9, 12, 17)))] + p.workers[:3]
        m += [(WTOT,)] + [(WCNT, q) for q in range(5)]
        for _ in range(rng.choice((3, 6))):
            a = p.node(TASK, rng.randrange(5), 1)
            m.append((ADD, a, 0))
        f = p.node(FORK, prio, 1)
        for _ in range(4):
            p.node(TASK, rng.choice((INHERIT, rng.randrange(5))), 1, f)
        m += [(ADD, f, 0), (WAIT, f, 0)]
    elif kind == 'restarts':
        p.workers = [(31, rng.choice((1, 2, 3)))]
        for i in range(rng.choice((4, 6, 8))):
            if i:
                m += [(STOP,)] + [(IDLE,)] * 0 + ([(ADD, p.node(TASK, rng.randrange(5), 1), 0)] if rng.random() < 0.4 else []) + [(START,)]
            for _ in range(rng.choice((0, 1, 3))):
                a = p.node(TASK, rng.randrange(5), 1)
                m += [(ADD, a, 0)] + [(WAIT, a, 0)] * (rng.random() < 0.3)
            if rng.random() < 0.5:
                m.append((QUI,))
    elif kind == 'dup':
        a = p.node(TASK, prio, 1)
        p.clients += [[], []]
        for _ in range(rng.choice((9, 18))):
            p.clients[rng.randrange(3)].append((ADD, a, rng.randrange(3)))
        m.append((WAIT, a, 0))
    elif kind == 'blocked':
        # all the workers but one are kept busy by blocked tasks; the last one has to execute the rest
        k = rng.choice((5, 6, 8, 10))
        p.workers = rng.choice(([(31, k)], [(31, 1)] * k, [(31, 2)] * (k // 2) + [(31, 1)] * (k % 2)))
        ga, one = p.gate(), rng.random() < 0.5
        first = [p.node(TASK, prio if one else rng.randrange(5), 1, body=[(GBLOCK, ga)]) for _ in range(k - 1)]
        cs = rng.choice((1, 1, 3))
        p.clients += [[] for _ in range(cs - 1)]
        for i, a in enumerate(first):
            p.clients[i % cs].append((ADD, a, rng.randrange(2)))
        if rng.random() < 0.5:
            m.append((SLEEP, 1))
        late = [p.node(TASK, prio if one else rng.randrange(5), 1) for _ in range(rng.choice((1, 3)))]
        m += [(ADD, a, 0) for a in late] + [(WAIT, a, 0) for a in late] + [(GOPEN, ga)] + [(WAIT, a, 0) for a in first]
    elif kind == 'idle':
        # exactly n unfinished tasks while a client waits for none
        p.workers = [(31, rng.choice((1, 2)))]
        n = rng.choice((7, 8, 16, 31, 32, 64, 100, 128, 256))
        ga = p.gate()
        k = p.nworkers()
        for i in range(n):
            m.append((ADD, p.node(TASK, prio, 0 if i else 1, body=[(GBLOCK, ga)] if i < k else []), 0))
            if i >= 3 and not (i + 1) & i:
                m.append((IDLE,))
        m.append((IDLE,))
        if rng.random() < 0.7:
            m.append((GOPEN, ga))
        else:
            p.clients.append([(SLEEP, 20000), (GOPEN, ga)])
        m.append((WUI, 500, 60000))
    elif kind == 'waiters':
        a = p.node(rng.choice((TASK, SEQ, FORK)), prio, 1)
        if p.nodes[a]['kind'] != TASK:
            p.node(TASK, INHERIT, wait(), a)
            p.node(TASK, INHERIT, wait(), a)
        p.clients += [[(WAIT, a, 0), (DON, a)] for _ in range(rng.choice((5, 9, 15)))]
        m.append((ADD, a, 0))
    elif kind == 'loop':
        v = rng.randrange(14)
        first = rng.choice((0, 0, 7, -12)) if v in (1, 2, 3, 4, 9, 10, 12, 13) else 0
        k = p.pfor(v, first, first + rng.choice((30, 64, 100, 150)), rng.choice((3, 8, 16, 40, 59)), rng.choice((1, 3, 7, 64)), rng.randrange(5))
        p.node()
        m += [(ADD, 1, 0), (PFOR, k)]
    m += [(QUI,), (IDLE,), (STOP, rng.randrange(2))]
    return p


PROFILES = {
    'C01': dict(p_dup=0.6, p_awt=0.6, p_st=0.2, clients=(1, 3), p_member_ops=0.3, max_nodes=7),
    'C02': dict(p_spec_workers=0.5, p_late_start=0.3, p_stop=0.15, clients=(1, 3)),
    'C03': dict(p_wait=1.0, clients=(1, 3), p_query=0.8, p_drop=0.2),
    'C04': dict(p_query=0.6, p_group=0.9, p_fork=0.35, p_wait=0.9, max_nodes=11, p_awt=0.1, p_st=0.05),
    'C05': dict(p_group=0.9, p_fork=0.8, p_wait=0.9, max_nodes=11, p_st=0.05),
    'C06': dict(p_group=0.9, p_fork=0.9, p_limited=0.8, p_wait=0.9, max_nodes=10, p_workers1=0.1, max_roots=2, p_st=0.05, p_gate=0.4),
    'C07': dict(p_awt=0.9, p_fork=0.9, p_wait=1.0, p_body_ops=0.7, p_stop=0.3, p_late_start=0.7, p_st=0, p_limited=0.2),
    'C08': dict(p_group=0.25, one_prio=0.2, max_roots=7, max_nodes=10, p_awt=0.05, p_st=0, p_late_start=0.8, p_gate=0.5, p_dup=0.05, p_stop=0.1, p_spec_workers=0.4, p_limited=0.0),
    'C09': dict(p_spec_workers=0.9, one_prio=0.0, p_inherit=0.6, p_wcnt=0.5),
    'C10': dict(p_stop=0.9, p_restart=0.6, p_nostop=0.3, p_gate=0.15, max_nodes=6),
    'C11': dict(p_idle=0.9, p_wui=0.3, p_timed=0.4, clients=(1, 3), p_gate=0.4, max_nodes=7),
    'C12': dict(p_group=0.7, p_pfor=0.25, p_st=0.2),
    'C13': dict(p_stop=0.5, p_restart=0.5, p_gate=0.3, p_nostop=0.3),
    'C14': dict(p_pfor=1.0, max_nodes=4, max_roots=2, p_spec_workers=0.3),
    'C22': dict(p_drop=0.85, p_query=0.1, clients=(1, 3), p_stop=0.3),
    'C25': dict(clients=(2, 3), p_dup=0.5, p_awt=0.4, p_query=0.6, p_idle=0.4, p_stop=0.4, p_drop=0.6),
    'C26': dict(p_st=0.9, clients=(1, 2), p_dup=0.2, p_wait=0.9, p_group=0.8),
}


def write(progs, txt, ndjson):
    with open(txt, 'w') as f:
        f.write('%d\n' % len(progs))
        for p in progs:
            f.write(p.text())
    with open(ndjson, 'w') as f:
        for p in progs:
            f.write(json.dumps(p.spec()) + '\n')
