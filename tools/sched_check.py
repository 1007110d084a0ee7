"""Checks of the scheduler, tasks, groups and parallel loops: programs are run on the real code under a
controlled scheduler, and every recorded execution is judged by the specification (SchedTrace/Contract)."""
import collections
import json
import random

import directed
import gen
import hb
import model
import vlib
from vlib import CheckError, job, log

BASE = {'ac', 'ar', 'Ac', 'Ar', 'sc', 'sr', 'bs', 'be', 'ba'}
WAITS = {'wc', 'wr', 'dq', 'dr', 'rr'}
WORK = {'wS', 'wI', 'wA', 'w1', 'w2', 'wT'}
SS = {'Sc', 'Sr', 'Tc', 'Tr'}
HOOKS = {'hA', 'hB', 'hY', 'hZ', 'gA', 'gB', 'gY', 'gZ'}
LOOP = {'pc', 'pr', 'it', 'iz', 'pv'}
REST = {'Q', 'gb', 'gp', 'is', 'ie', 'us', 'ue'}
LIFE = {'D', 'F', 'd', 'cd'}
PROGRESS = BASE | WAITS | WORK | SS | LOOP | REST
KEEP = {
    'C01': BASE | {'w1', 'wS', 'hA', 'hB', 'hY', 'hZ', 'Sc'},
    'C02': PROGRESS,
    'C03': BASE | WAITS,
    'C04': PROGRESS | HOOKS,
    'C05': PROGRESS | {'gY', 'gZ'},
    'C06': PROGRESS,
    'C07': PROGRESS,
    'C08': BASE | WORK | {'Sc'},
    'C09': BASE | WORK | LOOP | {'wn', 'Sc'},
    'C10': PROGRESS | {'X', 'E'},
    'C11': BASE | WORK | SS | REST,
    'C12': BASE | WAITS | LOOP | HOOKS | {'hg', 'ht', 'B', 'Q', 'w1', 'tx', 'kx', 'kC', 'hC', 'hX', 'gC', 'gX', 'hi', 'hu'},
    'C13': BASE | WORK | SS | REST | {'E', 'kx', 'vS', 'vT', 'vI', 'vA', 'v1', 'v2'},
    'C14': LOOP | {'Q', 'Sc', 'Sr', 'Tc', 'Tr'} | WORK,
    'C22': PROGRESS | LIFE | {'X', 'E', 'hA', 'gA', 'gB', 'gY', 'gZ'},
    'C25': BASE,
    'C26': PROGRESS | {'gY', 'gZ'},
}
FAULTS = {'C03': ['C03'], 'C04': ['C04'], 'C14': ['C14'], 'C22': ['UAF'], 'C25': ['RACE', 'UAF']}
ALWAYS = {'RACE', 'UAF', 'STUCK', 'LIVELOCK', 'ABORT', 'CRASH', 'CHECK', 'HANG', '?'}
BUDGET = {'quick': dict(programs=1400, big=120, per=16, events=1900000, dfs=1500, model=16, mtime=9, random=0, sim=0, guided=11000, hb=160), 'thorough': dict(programs=6000, big=1000, per=16, events=20000000, dfs=20000, model=40, mtime=30, random=8, sim=40, guided=200000, hb=4000)}


def project(prop, ev):
    keep = KEEP[prop] | ALWAYS
    return [e for e in ev if e[0] in keep]


def make_jobs(rng, prop, nprog, per, firstdirected, ndirected):
    jobs = []
    for i in range(nprog):
        n = per * (3 if firstdirected <= i < firstdirected + ndirected else 1)
        for k, (strat, kw) in enumerate((
                (vlib.RW, dict(rw=250)), (vlib.PCT, dict(pctd=3, pctl=250)), (vlib.RW, dict(rw=700)), (vlib.PCT, dict(pctd=5, pctl=400)))):
            kw = dict(kw)
            if rng.random() < 0.25:
                kw['fine'] = rng.choice((30, 150))
            if rng.random() < 0.3:
                kw['weak'] = 100
            if rng.random() < 0.3:
                kw['eintr'] = 150
            if rng.random() < 0.3:
                kw['timer'] = rng.choice((0, 30))
            jobs.append(job(i, strat, seed=rng.randrange(1, 1 << 40), count=max(1, n // 4), **kw))
    return jobs


def modelled(prop, B, rng, progs, res, S):
    """Explores the programs in the model of the scheduler; returns its behaviours as schedules for the real code."""
    L = [(i, model.spec(p)) for i, p in enumerate(progs)]
    L = [(i, s) for i, s in L if s]
    nd = B['model'] + B['random']
    L.sort(key=lambda x: (not progs[x[0]].small, model.size(x[1])))
    pick = L[:nd]
    if not pick:
        return []
    per = max(300, B['guided'] // len(pick))
    # how many transitions are seen in the time is known only afterwards: dense at first
    out = model.check([s for _, s in pick], S, cfg='OqpiStamps.cfg' if prop == 'C08' else 'OqpiSched.cfg', genk=4, timeout=B['mtime'])
    jobs, complete = [], 0
    for (i, s), (r, g) in zip(pick, out):
        res.add(states=r['distinct'], transitions=r['generated'], model_states=r['distinct'])
        complete += r['rc'] == 0
        if r['rc'] not in (0, -1):
            log('the model of program %d ended with %d' % (i, r['rc']))
            res.add(model_not_finished=1)
        jobs += [guided(i, x) for x in (rng.sample(g, per) if len(g) > per else g)]
    res.add(model_programs=len(pick), model_programs_complete=complete)
    if B['sim']:
        r, g = model.simulate([s for _, s in L[:400]], S, B['sim'], seed=rng.randrange(1, 1 << 30))
        res.add(model_simulated_behaviours=len(g))
        # no thread runs in circles: every program ends when threads are treated fairly
        live = model.check([s for _, s in L[:16]], S, cfg='OqpiLive.cfg', timeout=B['mtime'])
        res.add(model_liveness_programs=len(live), model_liveness_complete=sum(r['rc'] == 0 for r, _ in live), states=sum(r['distinct'] for r, _ in live))
        jobs += [guided(L[k][0], x) for k, x in g]
    return jobs


def guided(i, script):
    return job(i, vlib.GUIDED, seed=1, count=1, timer=0, script=script)


def run(prop, tier, seed):
    res = vlib.Result(prop, tier, seed)
    res.assumptions = [
        'one thread runs at a time and atomics are sequentially consistent; missing happens-before edges are detected as races',
        'time, semaphores, mutexes and threads of the operating system are modelled by the runtime (rt/vrt.cpp)',
        'programs within the intended use listed in DESIGN.md']
    S = vlib.Scratch()
    try:
        _run(prop, tier, seed, res, S)
        return res.finish()
    finally:
        S.close()


def _run(prop, tier, seed, res, S):
    B = BUDGET[tier]
    exes = vlib.build('h_sched', ('dbg', 'rel'))
    log('built')
    rng = random.Random('%s/%d' % (prop, seed))
    dirs = directed.programs(prop)
    progs = dirs + [gen.rand_prog(rng, gen.PROFILES.get(prop)) for _ in range(B['programs'])]
    big = [gen.big_prog(rng, prop) for _ in range(B['big'])]
    progs += big
    txt, nd = S.path('p.txt'), S.path('p.ndjson')
    gen.write(progs, txt, nd)
    jobs = make_jobs(rng, prop, len(progs) - len(big), B['per'], 0, len(dirs))
    jobs += [job(i, strat, seed=rng.randrange(1, 1 << 40), count=1, **kw) for i in range(len(progs) - len(big), len(progs))
             for strat, kw in ((vlib.RW, dict(rw=250)), (vlib.PCT, dict(pctd=3, pctl=2000)))]
    # every schedule with few preemptions of the small programs
    dfs = [job(i, vlib.DFS, seed=1, count=B['dfs'], pctd=2, timer=0) for i, p in enumerate(dirs) if p.small]
    recs, tot = [], collections.Counter()
    gjobs = modelled(prop, B, rng, progs[:len(dirs) + B['random'] + (340 if B['sim'] else 0)], res, S)
    log('%d schedules of the model' % len(gjobs))
    if gjobs:
        recs, t = vlib.run_jobs(exes['rel'], txt, gjobs, S, tag='g')
        for x in recs:
            x['v'] = 'rel'
        log('replayed', dict(t))
        res.add(model_schedules_replayed=t['guided'], model_schedules_followed_to_the_end=t['followed'], model_steps_followed=t['done'], executions=t['runs'])
    for v in ('dbg', 'rel'):
        js = jobs if v == 'dbg' else [j for k, j in enumerate(jobs) if k % 4 == 1]
        js = js + (dfs if v == 'dbg' else [])
        r, t = vlib.run_jobs(exes[v], txt, js, S)
        for x in r:
            x['v'] = v
        recs += r
        tot.update(t)
    log('ran', dict(tot))
    res.add(executions=tot['runs'], scheduling_points=tot['points'], programs=len(progs), exhaustive_schedule_searches=tot['dfs_complete'])
    judge(prop, res, S, 'SchedTrace', recs, progs, txt, nd, exes, B['events'])
    if prop == 'C25' and not res.violations:
        happens_before(prop, res, S, rng, progs, txt, exes, B)
    return recs


def happens_before(prop, res, S, rng, progs, txt, exes, B):
    """The accesses of some executions, judged by the definition of a data race (spec/HB.tla)."""
    strat = lambda: dict(rw=rng.choice((150, 300, 700))) if rng.random() < 0.6 else dict(strat=vlib.PCT, pctd=rng.choice((3, 5)))
    jobs = [job(i % len(progs), seed=rng.randrange(1, 1 << 40), count=1, hblog=1, **strat()) for i in range(B['hb'])]
    bad, chunk = {}, 1000
    for a in range(0, len(jobs), chunk):
        recs, _ = vlib.run_jobs(exes['rel'], txt, jobs[a:a + chunk], S, tag='h')
        traces = [dict(id=i, **hb.reduced(r['hb'])) for i, r in enumerate(recs)]
        bad, ok, st, tr = vlib.validate('HBTrace', 'HBTrace.cfg', traces, {}, S)
        log('free of races: %d of %d' % (ok, len(traces)))
        res.add(states=st, transitions=tr, hb_traces=len(traces), hb_events=sum(len(t['ev']) for t in traces))
        for i in list(bad)[:3]:
            r, t = recs[i], traces[i]
            res.violation('RACE: C25 (event %d of the accesses)' % bad[i][0][0], dict(
                module='HBTrace', variant='rel', program=progs[r['p']].text(), spec=progs[r['p']].spec(), job=' '.join(map(str, r['job'])),
                event=bad[i][0][0], faults=r['f'], trace=t['ev'][:bad[i][0][0]], full_trace=r['ev']))
        if bad or vlib.elapsed() > vlib.DEADLINE:
            break


def judge(prop, res, S, module, recs, progs, txt, nd, exes, maxevents, enforce=None, projection=None, extra=None):
    """Projects, deduplicates and validates; reports what isn't accepted."""
    enforce = enforce or [prop, 'FATAL'] + FAULTS.get(prop, []) + (['K12'] if prop == 'C12' else [])
    enf = S.path('enforce.ndjson')
    with open(enf, 'w') as f:
        f.write(json.dumps(enforce) + '\n')
    seen, traces, events = set(), [], 0
    # abnormal executions first
    recs.sort(key=lambda r: 0 if (r['r'] or r['u'] or r['ev'] and r['ev'][-1][0] in ALWAYS) else 1)
    for i, r in enumerate(recs):
        ev = (projection or project)(prop, r['ev'])
        key = (r['p'], json.dumps(ev))
        if not ev or key in seen:
            continue
        seen.add(key)
        if events > maxevents:
            break
        events += len(ev)
        nt = max([e[1] for e in ev if len(e) > 1] + [0]) + 1
        t = dict(id=i, p=r['p'] + 1, nt=nt, ev=ev)
        if extra:
            t.update(extra(r))
        traces.append(t)
    log('validating %d traces, %d events' % (len(traces), events))
    env = dict(ENFORCE=enf, **({'PROGS': nd} if nd else {}))
    bad, ok, st, tr = vlib.validate(module, module + '.cfg', traces, env, S)
    log('accepted %d' % ok)
    res.add(states=st, transitions=tr, traces_validated_against_impl=ok + len(bad), trace_events=events)
    if traces:
        t = traces[-1]
        res.sample(dict(program=progs[t['p'] - 1].spec(), trace=t['ev'][:60]))
    byid = {t['id']: t for t in traces}
    reported = 0
    for i in sorted(bad, key=lambda i: (min(b[0] for b in bad[i]), i)):
        new = [(n, v) for n, vs in bad[i] for v in vs if not res.is_known(v)]
        if not new or reported >= 3:
            continue
        reported += 1
        r = recs[i]
        n, v = new[0]
        confirm(prop, res, S, module, r, byid[i], n, v, progs, txt, env, exes, projection or project)


def confirm(prop, res, S, module, r, t, n, v, progs, txt, env, exes, projection):
    again, j = vlib.rerun(exes[r['v']], txt, r, S, hblog=0)
    same = bool(again) and projection(prop, again['ev']) == t['ev']
    f = S.path('one.ndjson')
    with open(f, 'w') as o:
        o.write(json.dumps(t) + '\n')
    out = vlib.tlc(module, module + 'Inv.cfg', S, env=dict(env, TRACES=f), extra=['-deadlock'])
    data = dict(module=module, variant=r['v'], program=progs[r['p']].text(), spec=progs[r['p']].spec(), job=' '.join(map(str, (0,) + tuple(j)[1:])),
                reproduced=same, event=n, violation=list(v), trace=t['ev'][:n + 5], full_trace=(again or r)['ev'], faults=r['f'],
                tlc='invariant Accepted violated' if 'is violated' in out['out'] else out['out'][-800:])
    res.violation('%s: %s (event %d of the trace, reproduced: %s)' % (v[0], v[1], n, same), data)
