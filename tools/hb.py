"""Recorded synchronization and memory accesses as traces of spec/HB.tla."""
import collections

ACCESS = {'W', 'D', 'AW', 'AD'}


def reduced(hb):
    """Leaves out what cannot be part of a race: granules of one thread or never written, and repetitions
    within the same tick of a thread.  Numbers threads, objects and granules from 1."""
    threads, written = collections.defaultdict(set), set()
    for e in hb:
        if e[0] in ACCESS:
            threads[e[2]].add(e[1])
            if e[0][-1] == 'W':
                written.add(e[2])
    tick, seen, objs, grans, out, nt = collections.Counter(), set(), {}, {}, [], 1
    for e in hb:
        k, t = e[0], e[1]
        nt = max(nt, t + 1, e[2] + 1 if k == 'C' else 0)
        if k in ACCESS:
            g = e[2]
            if len(threads[g]) < 2 or g not in written:
                continue
            x = (k, t, g, e[3], tick[t])
            if x in seen:
                continue
            seen.add(x)
            out.append([k, t + 1, grans.setdefault(g, len(grans) + 1), e[3]])
        elif k in ('C', 'J'):
            out.append([k, t + 1, e[2] + 1])
        elif k in ('O', 'F', 'FA', 'FR', 'FAR'):
            out.append([k, t + 1])
        elif k not in ('N', 'X'):
            out.append([k, t + 1, objs.setdefault(e[2], len(objs) + 1)])
        if k in ('R', 'RS', 'C', 'FR', 'FAR'):
            tick[t] += 1
    return dict(nt=nt, no=max(1, len(objs)), ng=max(1, len(grans)), ev=out)
