"""Common parts of the checks: building the harnesses from /repo, running them in parallel, running
TLC in parallel, judging its answers, known findings, violations and evidence."""
import collections
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OQPI_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
DEADLINE = 640      # seconds after which no further batch of traces is begun

FLAGS = {
    'dbg': ['-O1', '-g'],                    # the checks of the library are on
    'rel': ['-O2', '-g', '-DNDEBUG'],        # as released
    'lay': ['-O1', '-g', '-DVERIF_LAYER'],   # threads with a layer
}


class CheckError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def elapsed():
    return time.time() - T0


# ----------------------------------------------------------------------------- building
def _hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def _cc(cmd, out):
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        raise CheckError('cannot build: ' + ' '.join(cmd))
    os.rename(tmp, out)


def compile_obj(src, cmd, deps):
    """Compiles src into an object named after the content of everything it depends on."""
    os.makedirs(BUILD, exist_ok=True)
    key = _hash(deps + [src], cmd)
    out = os.path.join(BUILD, os.path.basename(src) + '.' + key + '.o')
    if not os.path.exists(out):
        _cc(cmd + ['-c', src], out)
    return out


def build(harness, variants=('dbg',)):
    """Builds harness/<harness>.cpp against /repo; returns {variant: path of the program}."""
    inc = glob.glob(os.path.join(REPO, 'include', '**', '*'), recursive=True)
    inc = [p for p in inc if os.path.isfile(p)]
    rt = [os.path.join(VERIF, 'rt', 'vrt.h'), os.path.join(VERIF, 'rt', 'weak.h'), os.path.join(VERIF, 'harness', 'common.h')]
    H = os.path.join(VERIF, 'harness')
    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        a = ex.submit(compile_obj, os.path.join(VERIF, 'rt', 'vrt.cpp'), ['clang++', '-std=c++17', '-O2', '-g'], rt)
        b = ex.submit(compile_obj, os.path.join(H, 'common.cpp'), ['clang++', '-std=c++17', '-O2', '-g'], rt)
        os_ = {v: ex.submit(compile_obj, os.path.join(H, harness + '.cpp'),
                            ['clang++', '-std=c++17', '-include', 'cstdarg', '-include', os.path.join(VERIF, 'rt', 'weak.h'), '-fsanitize=thread', '-w',
                             '-I' + os.path.join(REPO, 'include')] + FLAGS[v], inc + rt) for v in variants}
        for v in variants:
            objs = [os_[v].result(), b.result(), a.result()]
            out = os.path.join(BUILD, harness + '.' + v + '.' + _hash(objs, 0)[:16])
            if not os.path.exists(out):
                _cc(['clang++', '-no-pie', '-rdynamic'] + objs + ['-ldl', '-lpthread'], out)
            res[v] = out
    return res


# ----------------------------------------------------------------------------- scratch
class Scratch:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run-', dir=BUILD)

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ----------------------------------------------------------------------------- harness runs
# knobs of a job: prog strat seed count rw pctd pctl fine eintr weak timer hblog limit [script...]
RW, PCT, REPLAY, DFS, GUIDED = range(5)


def job(prog, strat=RW, seed=1, count=10, rw=300, pctd=3, pctl=300, fine=0, eintr=0, weak=0, timer=5, hblog=0, limit=0, script=()):
    return (prog, strat, seed, count, rw, pctd, pctl, fine, eintr, weak, timer, hblog, limit) + tuple(script)


def run_jobs(exe, programs, jobs, scratch, tag='r', nproc=None, timeout=600, maxabort=12):
    """Runs the jobs on a harness; returns (records, summary)."""
    nproc = nproc or NPROC
    procs = []
    groups = [jobs[i::nproc] for i in range(nproc)]
    for i, g in enumerate(groups):
        if not g:
            continue
        jf, of = scratch.path('%s%d.jobs' % (tag, i)), scratch.path('%s%d.out' % (tag, i))
        with open(jf, 'w') as f:
            for j in g:
                f.write(' '.join(map(str, j)) + '\n')
        env = dict(os.environ, VRT_CPU=str(i), VRT_MAXABORT=str(maxabort))
        procs.append((subprocess.Popen([exe, programs, jf, of], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), of, g))
    recs, tot = [], collections.Counter()
    end = time.time() + timeout
    for p, of, g in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            subprocess.run(['pkill', '-KILL', '-P', str(p.pid)])
            p.kill()
            p.wait()
            tot['timeouts'] += 1
        with open(of) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if 'summary' in d:
                    s = d['summary']
                    for k in ('runs', 'points', 'distinct', 'aborted', 'guided', 'followed', 'asked', 'done'):
                        tot[k] += s[k]
                    tot['incomplete'] += 0 if s['complete'] else 1
                elif 'dfs' in d:
                    tot['dfs_complete'] += 1
                    tot['dfs_runs'] += d['runs']
                else:
                    d['job'] = g[d['j']]
                    recs.append(d)
        os.unlink(of)
    return recs, tot


def rerun(exe, programs, rec, scratch, hblog=0):
    """Deterministic repetition of one recorded run."""
    j = list(rec['job'])
    strat, seed = rec['k'].split()
    if 'd' in rec and int(strat) in (REPLAY, DFS, GUIDED):
        j[1], script = REPLAY, rec['d']
        if int(strat) == GUIDED:
            j[1], script = GUIDED, list(j[13:])
    else:
        script = list(j[13:])
    j = j[:13] + list(script)
    j[2], j[3], j[11] = int(seed), 1, hblog
    # as in the middle of a campaign (statics are initialized), or as the first run of a process
    for jobs in ([job(rec['p'], seed=7, count=1), tuple(j)], [tuple(j)]):
        r, _ = run_jobs(exe, programs, jobs, scratch, tag='again', nproc=1)
        r = [x for x in r if x['j'] == len(jobs) - 1]
        if r and r[0]['ev'] == rec['ev']:
            break
    return (r[0] if r else None), tuple(j)


# ----------------------------------------------------------------------------- TLC
def tlc(module, cfg, scratch, env=None, workers=1, extra=(), timeout=800, xmx='3g', short=True):
    meta = tempfile.mkdtemp(prefix='meta-', dir=scratch.dir)
    cmd = ['java', '-Djava.io.tmpdir=' + scratch.dir, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss16m'] + (['-XX:TieredStopAtLevel=1'] if short else []) + [ '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers), '-config', cfg] + list(extra) + [module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'spec'), env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d[\d,]*) states generated[^\n]*?, (\d[\d,]*) distinct states found', out)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return dict(rc=rc, out=out, generated=gen, distinct=dist, wall=time.time() - t)


def prints(out, tag):
    """Values printed by the specification as '@TAG json'."""
    res = []
    pre = '"@' + tag + ' '
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            try:
                res.append(json.loads(json.loads(line)[len(tag) + 2:]))
            except ValueError:
                raise CheckError('cannot read an answer of TLC: ' + line[:300])
    return res


def validate(module, cfg, traces, env, scratch, nproc=None, timeout=800):
    """Judges the traces (dicts with an id) with a trace specification, in parallel.
    Returns (verdicts {id: [(event, violations)]}, number accepted, states, transitions)."""
    nproc = nproc or NPROC
    if not traces:
        return {}, 0, 0, 0
    # balanced by number of events
    nproc = max(1, min(nproc, len(traces) // 20 + 1))
    ng = nproc * (1 + len(traces) // (nproc * 5000))
    groups = [[] for _ in range(ng)]
    load = [0] * ng
    for t in sorted(traces, key=lambda t: -len(t['ev'])):
        i = load.index(min(load))
        groups[i].append(t)
        load[i] += len(t['ev']) + 5

    def one(i):
        if i >= nproc and time.time() - T0 > DEADLINE:
            return None
        f = scratch.path('tr-%s-%d.ndjson' % (module, i))
        with open(f, 'w') as o:
            for t in groups[i]:
                o.write(json.dumps(t, separators=(',', ':')) + '\n')
        return tlc(module, cfg, scratch, env=dict(env, TRACES=f), extra=['-deadlock'], timeout=timeout, short=max(load) < 300000)
    with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
        rs = list(ex.map(one, range(ng)))
    bad, ok, st, tr, skipped = collections.defaultdict(list), set(), 0, 0, set()
    for g, r in zip(groups, rs):
        if r is None:
            skipped.update(t['id'] for t in g)
            continue
        if r['rc'] != 0:
            log(r['out'][-3000:])
            raise CheckError('TLC failed on %s (exit code %s)' % (module, r['rc']))
        st += r['distinct']
        tr += r['generated']
        for b in prints(r['out'], 'BAD'):
            bad[b[0]].append((b[1], sorted(tuple(v) for v in b[2])))
        ok.update(x[0] for x in prints(r['out'], 'OK'))
    ids = {t['id'] for t in traces}
    lost = ids - ok - set(bad) - skipped
    if skipped:
        log('no time left for %d traces' % len(skipped))
    if lost:
        raise CheckError('%d traces without a verdict, e.g. %s' % (len(lost), sorted(lost)[:3]))
    return bad, len(ok), st, tr


# ----------------------------------------------------------------------------- findings, verdicts, evidence
def known_findings(prop):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


class Result:
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known_seen = collections.OrderedDict()
        self.known = known_findings(prop)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov['samples']) < 4:
            self.cov['samples'].append(s)

    def is_known(self, key):
        """key: (label, detail) of a violation; listed findings are recognized by these."""
        for k in self.known:
            if [key[0], key[1]] in k['match']:
                self.known_seen.setdefault(k['what'], 0)
                self.known_seen[k['what']] += 1
                return True
        return False

    def violation(self, what, data):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        path = os.path.join(d, '%s-%d.json' % (self.prop, n))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, what=what, **data), f, indent=1)
        self.violations.append((what, path))
        log('violation: %s' % (what,))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.cov['known_findings_observed'] = dict(self.known_seen)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(elapsed(), 1), violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_seen:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k), flush=True)
        c = {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}
        log('covered:', json.dumps(c))
        if self.violations:
            for what, path in self.violations[:3]:
                print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            return 1
        log('held on everything explored')
        return 0
