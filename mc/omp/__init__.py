"""
Stateless model checking of the OpenMP kernels of the extension.

The extension is loaded in its 'mc' variant: every memory access of the Fortran code and every OpenMP
synchronisation is a scheduling point of a cooperative runtime (mcomp.c).  explore() runs a Python
function that calls the code through the public API, again and again, once per inequivalent
interleaving: dynamic partial-order reduction (Flanagan & Godefroid, POPL 2005) over the logged
accesses, without preemption bound.  The exploration is exhaustive unless the cap is reached.
"""
import ctypes
import sys

import numpy as np

from ..harness import Fatal, Mismatch

EV = np.dtype([('tid', 'i4'), ('kind', 'i4'), ('addr', 'u8'), ('size', 'i4'), ('enabled', 'i4')])
READ, WRITE, ATOMIC, ACQ, REL, BARRIER, FORK, JOIN, END, CLAIM = range(10)
KINDS = 'read write atomic acquire release barrier fork join end claim'.split()


class Runtime:
    def __init__(self):
        f = sys.modules['pysimulators._flib']
        self.lib = lib = ctypes.CDLL(f.__file__)
        for n in ('mc_nevents', 'mc_regions', 'mc_switches'):
            getattr(lib, n).restype = ctypes.c_long
        lib.mc_events.restype = ctypes.c_void_p
        lib.mc_begin.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_long, ctypes.c_long]

    def run(self, func, nthreads, prefix, maxev=400000):
        ch = np.ascontiguousarray(prefix, np.int32)
        self.lib.mc_begin(nthreads, ch.ctypes.data, len(ch), maxev)
        try:
            out = func()
        finally:
            self.lib.mc_end()
        if self.lib.mc_diverged():
            raise Fatal('replaying a prefix diverged: nondeterminism outside the scheduler')
        if self.lib.mc_overflow():
            raise Fatal('too many events in one execution')
        n = self.lib.mc_nevents()
        if n:
            buf = (ctypes.c_char * (n * EV.itemsize)).from_address(self.lib.mc_events())
            ev = np.frombuffer(buf, EV).copy()
        else:
            ev = np.zeros(0, EV)
        return out, ev, bool(self.lib.mc_deadlock())


def _conflicts(ev, nthreads):
    """Indices of the events that touch memory shared by several threads, one of which writes;
    and, for each, the list of the 1-byte-exact cells (labelled) it touches."""
    region = np.cumsum(ev['kind'] == FORK)
    cells = {}
    kinds, tids, addrs, sizes = (ev[k].tolist() for k in ('kind', 'tid', 'addr', 'size'))
    reg = region.tolist()
    lastfork = 0
    info = {}
    for i, k in enumerate(kinds):
        if k > ATOMIC and k != CLAIM:
            continue
        w = k != READ
        t = tids[i]
        a, s = addrs[i], sizes[i]
        r = reg[i]
        # memory is tracked by 4-byte cells, and by byte for smaller accesses
        for c in ((r, x) for x in (range(a, a + s) if s < 4 or a % 4 else range(a, a + s, 4))):
            e = info.get(c)
            if e is None:
                info[c] = [1 << t, w, [i]]
            else:
                e[0] |= 1 << t
                e[1] |= w
                e[2].append(i)
    shared = {}
    for c, (m, w, lst) in info.items():
        if w and m & (m - 1):
            for i in lst:
                shared.setdefault(i, []).append(c)
    return shared


def explore(rt, func, nthreads, verdict, cap=2000, tick=None, preemptions=1):
    """
    Explore every inequivalent interleaving of func().

    verdict(out) raises if the outcome differs from the sequential reference.
    Returns statistics.
    """
    stack = []      # one node per event of the current execution, None when no choice is left
    nodes = {}      # index -> {'done': set, 'todo': set}
    prefix = []
    nexec = nodes_seen = 0
    nev = 0
    outcomes = set()
    capped = False
    while True:
        out, ev, dead = rt.run(func, nthreads, prefix)
        nexec += 1
        if tick:
            tick()
        nev += len(ev)
        tids = ev['tid'].tolist()
        if dead:
            raise Mismatch(f'deadlock after the thread choices {compress(tids)}')
        try:
            outcomes.add(verdict(out))
        except (Mismatch, AssertionError) as e:
            raise Mismatch(f'{e} | {nthreads} threads, schedule {compress(tids)} (execution {nexec})') from None
        if nexec == 1 and not len(ev):
            break
        before = set(nodes)
        _backtrack(ev, tids, nodes, len(prefix), nthreads)
        nodes_seen += len(nodes.keys() - before)
        # deepest node with an alternative left
        while nodes:
            i = max(nodes)
            nd = nodes[i]
            todo = nd['todo'] - nd['done']
            if todo:
                t = min(todo)
                nd['done'].add(t)
                prefix = tids[:i] + [t]
                break
            del nodes[i]
        else:
            break
        # nodes deeper than i are gone already
        if nexec >= cap:
            capped = True
            break
    bound = 0
    points = nodes_seen
    if capped:
        # complete the prefix of the search tree seen so far by every schedule with few preemptions
        for bound in range(1, preemptions + 1):
            n, e, pts = _bounded(rt, func, nthreads, verdict, outcomes, bound, tick)
            nexec += n
            nev += e
            points += pts
    return {'choice_points': points, 'preemption_bound': bound, 'executions': nexec, 'events': nev, 'outcomes': len(outcomes), 'capped': capped}


def _bounded(rt, func, nthreads, verdict, outcomes, bound, tick):
    """Every schedule with at most `bound` switches at conflicting accesses of a thread that could go on."""
    nexec = nev = 0
    todo = [([], 0)]
    seen = set()
    while todo:
        prefix, depth = todo.pop()
        out, ev, dead = rt.run(func, nthreads, prefix)
        nexec += 1
        nev += len(ev)
        if tick:
            tick()
        tids = ev['tid'].tolist()
        if dead:
            raise Mismatch(f'deadlock after the thread choices {compress(tids)}')
        try:
            outcomes.add(verdict(out))
        except (Mismatch, AssertionError) as e:
            raise Mismatch(f'{e} | {nthreads} threads, schedule {compress(tids)} (bounded search)') from None
        if depth >= bound:
            continue
        kinds = ev['kind'].tolist()
        enabled = ev['enabled'].tolist()
        points = set(_conflicts(ev, nthreads)) | {i + 1 for i, k in enumerate(kinds) if k == FORK}
        points |= {i for i, k in enumerate(kinds) if k == ACQ}
        for i in sorted(points):
            if i < len(prefix) or i >= len(tids):
                continue
            if kinds[i - 1] == FORK:
                en = range(nthreads)
                cost = 0
            else:
                en = [t for t in range(nthreads) if enabled[i - 1] >> t & 1]
                cost = 1
            for t in en:
                if t != tids[i]:
                    p = tids[:i] + [t]
                    key = hash(tuple(p))
                    if key not in seen:
                        seen.add(key)
                        todo.append((p, depth + cost))
    return nexec, nev, len(seen)


def compress(tids):
    out = []
    for t in tids:
        if t < 0:
            continue
        if out and out[-1][0] == t:
            out[-1][1] += 1
        else:
            out.append([t, 1])
    s = ' '.join(f'{t}x{n}' for t, n in out)
    return s if len(s) < 500 else s[:500] + '...'


def _backtrack(ev, tids, nodes, nprefix, nthreads):
    kinds = ev['kind'].tolist()
    addrs = ev['addr'].tolist()
    enabled = ev['enabled'].tolist()
    shared = _conflicts(ev, nthreads)
    C = [[0] * nthreads for _ in range(nthreads)]       # vector clocks of the threads (event index + 1)
    lastw = {}      # cell -> (index, tid, clock)
    lastr = {}      # cell -> {tid: (index, clock)}
    lockacq = {}
    lockrel = {}
    bar = []
    # masks of enabled threads before each event: those enabled after the previous one
    def enabled_before(j):
        if j == 0:
            return set()
        if kinds[j - 1] == FORK:
            return set(range(nthreads))
        m = enabled[j - 1]
        return {t for t in range(nthreads) if m >> t & 1}

    def add(j, p):
        if j < nprefix - 1 and j not in nodes:
            # inside the replayed prefix: the node still exists unless exhausted
            pass
        en = enabled_before(j)
        nd = nodes.get(j)
        if nd is None:
            nd = nodes[j] = {'done': {tids[j]}, 'todo': {tids[j]}}
        nd['done'].add(tids[j])
        if p in en:
            nd['todo'].add(p)
        else:
            nd['todo'] |= en

    def hb(j, tj, p):
        return C[p][tj] > j

    for i, k in enumerate(kinds):
        p = tids[i]
        if p < 0:
            # fork / join: everything before is ordered with everything after
            top = [i + 1] * nthreads
            C = [list(top) for _ in range(nthreads)]
            lastw.clear(), lastr.clear(), lockacq.clear(), lockrel.clear()
            bar = []
            continue
        cp = C[p]
        cells = shared.get(i)
        if cells:
            write = k != READ
            cand = {}
            joins = []
            for c in cells:
                w = lastw.get(c)
                if w and w[1] != p:
                    if not hb(w[0], w[1], p):
                        cand[w[1]] = max(cand.get(w[1], -1), w[0])
                    joins.append(w[2])
                if write:
                    for q, r in lastr.get(c, {}).items():
                        if q != p:
                            if not hb(r[0], q, p):
                                cand[q] = max(cand.get(q, -1), r[0])
                            joins.append(r[1])
            for j in set(cand.values()):
                add(j, p)
            for cl in joins:
                for q in range(nthreads):
                    if cl[q] > cp[q]:
                        cp[q] = cl[q]
            cp[p] = i + 1
            snap = list(cp)
            for c in cells:
                if write:
                    lastw[c] = (i, p, snap)
                    lastr.pop(c, None)
                else:
                    lastr.setdefault(c, {})[p] = (i, snap)
        elif k == ACQ:
            a = addrs[i]
            la = lockacq.get(a)
            if la and la[1] != p and not hb(la[0], la[1], p):
                add(la[0], p)
            lr = lockrel.get(a)
            if lr:
                for q in range(nthreads):
                    if lr[q] > cp[q]:
                        cp[q] = lr[q]
            cp[p] = i + 1
            lockacq[a] = (i, p)
        elif k == REL:
            cp[p] = i + 1
            lockrel[addrs[i]] = list(cp)
        elif k == BARRIER:
            cp[p] = i + 1
            bar.append(p)
            if len(bar) == nthreads:
                top = [max(C[q][t] for q in range(nthreads)) for t in range(nthreads)]
                C = [list(top) for _ in range(nthreads)]
                bar = []
        else:
            cp[p] = i + 1
