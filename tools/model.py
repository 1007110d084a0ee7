"""The model of the scheduler (spec/OqpiSched.tla): which programs it covers, exhaustive checking, and
schedules taken from its behaviours."""
import concurrent.futures
import json
import os

import gen
import vlib

SUPPORTED = {gen.ADD, gen.WAIT, gen.AWT, gen.DON, gen.RES, gen.ST, gen.IDLE, gen.DROP, gen.START, gen.STOP, gen.QUI, gen.GBLOCK,
             gen.GOPEN, gen.WCNT, gen.ADDM, gen.WTOT, gen.WFR, gen.YIELD, gen.PFOR, gen.MAKE}


def spec(p):
    """The program as the model takes it, or None if it does something the model doesn't have."""
    bodies = [n['body'] for n in p.nodes[1:]]
    if p.timed:
        return None
    for l in p.clients + bodies:
        for o in l:
            if o[0] not in SUPPORTED or o[0] in (gen.START, gen.STOP) and l is not p.clients[0] or o[0] == gen.START and o[1:2] == (1,):
                return None
    starts = sum(o[0] == gen.START for o in p.clients[0])

    def pad(l):
        return [(list(o) + [0, 0])[:3] for o in l]
    s = p.spec()
    s.update(nt=len(p.clients) + p.nworkers() * starts, ops=[pad(l) for l in p.clients], body=[pad(b) for b in bodies])
    for d, q in zip(s['pfors'], p.pfors):
        d.update(atomic=1 if q['variant'] in (3, 5, 10, 11) else 0, grab=q['grab'], batch=0 if q['variant'] in (4, 5, 6, 7, 11, 12) else 1)
    return s


def size(s):
    """How big its state space may be, roughly."""
    return 3 * sum(w['count'] if isinstance(w, dict) else 1 for w in s['workers']) * len(s['nodes']) + 2 * s['nt'] + sum(map(len, s['ops'])) + sum(map(len, s['body'])) + 9 * len(s['pfors'])


def check(specs, S, cfg='OqpiSched.cfg', genk=0, timeout=300, nproc=None, xmx='2g', extra=()):
    """Explores every behaviour of each program (until the time is up); returns [(result of TLC, schedules)]."""
    nproc = nproc or vlib.NPROC

    def one(i):
        f = S.path('model-%d.ndjson' % i)
        with open(f, 'w') as o:
            o.write(json.dumps(specs[i]) + '\n')
        k = genk[i] if isinstance(genk, (list, tuple)) else genk
        r = vlib.tlc('OqpiSched', cfg, S, env=dict(PROGS=f, **({'GENK': str(k)} if k else {})), timeout=timeout, short=False, xmx=xmx, extra=extra)
        g = [x[1] for x in vlib.prints(r['out'], 'GEN')] if k else []
        os.unlink(f)
        return r, g
    with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
        return list(ex.map(one, range(len(specs))))


def simulate(specs, S, timeout, cfg='OqpiSched.cfg', seed=1):
    """Random behaviours of all the programs; returns the result of TLC and [(program, schedule)]."""
    f = S.path('model-sim.ndjson')
    with open(f, 'w') as o:
        o.write(''.join(json.dumps(s) + '\n' for s in specs))
    r = vlib.tlc('OqpiSched', cfg, S, env=dict(PROGS=f, WHOLE='1'), timeout=timeout, workers=vlib.NPROC, short=False, xmx='8g',
                 extra=['-simulate', '-depth', '5000', '-seed', str(seed)])
    return r, [(x[0] - 1, x[1]) for x in vlib.prints(r['out'], 'GEN')]
