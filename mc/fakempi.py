"""
A model of MPI in one process: every rank is a thread, only one of them runs at a time, and a controller decides which
one goes on at each scheduling point (start, MPI call, opening or removal of a file).

explore(n, body, verdict) runs body(comm) on n ranks under every inequivalent order of the accesses to the files
(dynamic partial-order reduction: MPI calls only synchronise, so that orders of independent segments are equivalent),
or under every order of the segments with exhaustive=True.  It raises Mismatch on a deadlock, on mismatched
collective calls, on a rank that raises, or when the verdict on the ranks' results raises.
"""
import copy
import itertools
import os
import pickle
import sys
import threading

import numpy as np

from .harness import Fatal, Mismatch

IN_PLACE = 'IN_PLACE'
_local = threading.local()


class _Abort(BaseException):
    pass


class World:
    def __init__(self, n, root=None):
        self.n = n
        self.root = root            # accesses to the files below this directory are scheduling points
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.ctl = threading.Semaphore(0)
        self.state = ['ready'] * n
        self.wait = [None] * n
        self.result = [None] * n
        self.error = [None] * n
        self.abort = False
        self.problem = None
        self.events = []            # (rank, footprint, enabled ranks before)
        self.clock = [[0] * n for _ in range(n)]
        self.current = None
        self.open_files = [dict() for _ in range(n)]

    # --- called by the ranks
    def point(self, cond=None, what='', footprint=None):
        """End of a segment. The next one starts with an access described by the footprint."""
        r = _local.rank
        self.wait[r] = (cond, what)
        self.state[r] = 'wait'
        self.ctl.release()
        self.sem[r].acquire()
        if self.abort:
            raise _Abort()
        self.state[r] = 'run'

    def touch(self, path, write, lo=0, hi=float('inf')):
        """Access to the bytes lo to hi of a file."""
        fp = self.events[-1][1]
        k = path, lo, hi
        fp[k] = fp.get(k, False) or write

    # --- controller
    def run(self, body, prefix, order=()):
        comm = Shared(self, list(range(self.n)))
        threads = []

        def main(r):
            _local.world, _local.rank = self, r
            self.sem[r].acquire()
            try:
                if self.abort:
                    return
                self.state[r] = 'run'
                self.result[r] = body(Comm(comm, r))
            except _Abort:
                pass
            except BaseException as e:      # noqa
                self.error[r] = e
            finally:
                self.state[r] = 'done'
                _local.world = None
                self.ctl.release()
        for r in range(self.n):
            t = threading.Thread(target=main, args=(r,), daemon=True)
            t.start()
            threads.append(t)
        i = 0
        while True:
            enabled = []
            for r in range(self.n):
                if self.state[r] == 'ready':
                    enabled.append(r)
                elif self.state[r] == 'wait':
                    c = self.wait[r][0]
                    if c is None or c():
                        enabled.append(r)
            if self.problem or not enabled:
                break
            if i < len(prefix):
                r = prefix[i]
                if r not in enabled:
                    raise Fatal('the execution is not reproducible')
            else:
                r = next((r for r in order if r in enabled), None)
                if r is None:
                    r = self.current if self.current in enabled else enabled[0]
            self.current = r
            self.events.append([r, {}, tuple(enabled), None])
            i += 1
            if self.wait[r] is not None and self.wait[r][0] is not None:
                sync = self.wait[r][0].sync
                for s in sync():
                    self._join(r, s)
            self.clock[r][r] = i
            self.events[-1][3] = list(self.clock[r])
            self.sem[r].release()
            self.ctl.acquire()
        blocked = [(r, self.wait[r][1]) for r in range(self.n) if self.state[r] != 'done']
        self.abort = True
        for r in range(self.n):
            if self.state[r] != 'done':
                self.sem[r].release()
                self.ctl.acquire()
        for t in threads:
            t.join()
        errs = [f'rank {r}: {type(e).__name__}: {e}' for r, e in enumerate(self.error) if e is not None]
        if self.problem:
            return 'mismatched collective calls: ' + self.problem
        if blocked:
            return 'the processes block for ever: ' + ', '.join(f'rank {r} in {w}' for r, w in blocked) + (
                f' ({"; ".join(errs)})' if errs else '')
        return None

    def _join(self, r, clock):
        c = self.clock[r]
        for k in range(self.n):
            if clock[k] > c[k]:
                c[k] = clock[k]


class Cond:
    def __init__(self, test, sync):
        self.test, self.sync = test, sync

    def __call__(self):
        return self.test()


def _audit(event, args):
    w = getattr(_local, 'world', None)
    if w is None or w.root is None:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes, os.PathLike)):
            return
        path = os.fsdecode(path)
        if not os.path.abspath(path).startswith(w.root):
            return
        write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) else 'r' not in str(mode)
    elif event in ('os.remove', 'os.rename', 'os.truncate', 'os.mkdir', 'os.rmdir'):
        path = os.fsdecode(args[0]) if isinstance(args[0], (str, bytes, os.PathLike)) else str(args[0])
        if not os.path.abspath(path).startswith(w.root):
            return
        write = True
    else:
        return
    access(path, write)


def access(path, write, *bounds):
    """Scheduling point before the access to a file, or to the bytes between bounds."""
    w = _local.world
    w.point(None, 'file access')
    w.touch(os.path.abspath(path), write, *bounds)


def _conflict(a, b):
    return any((u or v) and p == q and lo < h and l < hi for (p, lo, hi), u in a.items() for (q, l, h), v in b.items())


sys.addaudithook(_audit)


# ----------------------------------------------------------------------------------------

class Shared:
    """What the members of a communicator share."""
    def __init__(self, world, members):
        self.world, self.members = world, members
        self.slots = {}


_keyvals = {}


class Comm:
    def __init__(self, shared, rank):
        self._s, self.rank = shared, rank
        self.size = len(shared.members)
        self._n = 0
        self._attr = {}
        self._freed = False

    def __deepcopy__(self, memo):
        raise TypeError('cannot copy a communicator')

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator')

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _call(self, name, value, root=None, sense='all'):
        if self._freed:
            raise RuntimeError('call on a freed communicator')
        w = self._s.world
        slot = self._s.slots.setdefault(self._n, {'name': None, 'data': {}, 'clock': {}, 'out': {}})
        self._n += 1
        sig = (name, root)
        if slot['name'] is None:
            slot['name'] = sig
        elif slot['name'] != sig:
            w.problem = f"{slot['name'][0]} and {name} on the ranks of a communicator of {self.size}"
            w.point(Cond(lambda: False, lambda: []), name)
        g = self._s.members[self.rank]
        slot['data'][self.rank] = value
        slot['clock'][self.rank] = list(w.clock[g])
        if sense == 'all' or sense == 'toroot' and self.rank == root:
            test = lambda: len(slot['data']) == self.size
            sync = lambda: list(slot['clock'].values())
        elif sense == 'fromroot' and self.rank != root:
            test = lambda: root in slot['data']
            sync = lambda: [slot['clock'][root]]
        else:
            test = lambda: True
            sync = lambda: []
        w.point(Cond(test, sync), name)
        return slot

    @staticmethod
    def _clone(x):
        return x if isinstance(x, Comm) else pickle.loads(pickle.dumps(x))

    def allgather(self, sendobj=None):
        s = self._call('allgather', pickle.dumps(sendobj))
        return [pickle.loads(s['data'][r]) for r in range(self.size)]

    def gather(self, sendobj=None, root=0):
        s = self._call('gather', pickle.dumps(sendobj), root, 'toroot')
        if self.rank == root:
            return [pickle.loads(s['data'][r]) for r in range(self.size)]

    def bcast(self, obj=None, root=0):
        s = self._call('bcast', pickle.dumps(obj) if self.rank == root else None, root, 'fromroot')
        return pickle.loads(s['data'][root])

    def scatter(self, sendobj=None, root=0):
        s = self._call('scatter', pickle.dumps(sendobj) if self.rank == root else None, root, 'fromroot')
        return pickle.loads(s['data'][root])[self.rank]

    def allreduce(self, sendobj=None, op=None):
        s = self._call('allreduce', pickle.dumps(sendobj))
        v = [pickle.loads(s['data'][r]) for r in range(self.size)]
        return _reduce(v, op)

    def Barrier(self):
        self._call('Barrier', None)

    barrier = Barrier

    def Allreduce(self, i, o, op=None):
        buf = _buf(o)
        src = buf if _in_place(i) else _buf(i)
        if not _in_place(i):
            _check_type(i), _check_type(o)
        s = self._call('Allreduce', (src.copy(), src.size, src.dtype.str))
        data = [s['data'][r] for r in range(self.size)]
        if len({d[1:] for d in data}) > 1:
            raise Mismatch(f'Allreduce of different buffers: {[d[1:] for d in data]}')
        buf[...] = _reduce([d[0] for d in data], op).reshape(buf.shape)

    def Allgather(self, i, o):
        buf = _buf(o)
        n = buf.size // self.size
        src = buf.reshape(-1)[n * self.rank: n * (self.rank + 1)] if _in_place(i) else _buf(i)
        s = self._call('Allgather', src.copy())
        flat = buf.reshape(-1)
        for r in range(self.size):
            flat[n * r: n * (r + 1)] = s['data'][r].reshape(-1)

    def Allgatherv(self, i, o):
        buf, (counts, offsets) = _buf(o), (o[1][:2] if isinstance(o[1], (tuple, list)) and isinstance(o[1][0], (list, tuple, np.ndarray)) else o[1:3])
        flat = _flat(buf)
        if _in_place(i):
            src = flat[offsets[self.rank]: offsets[self.rank] + counts[self.rank]]
        else:
            src = _flat(_buf(i))
        s = self._call('Allgatherv', (src.copy(), src.dtype.str))
        for r in range(self.size):
            d, t = s['data'][r]
            if d.size != counts[r]:
                raise Mismatch(f'Allgatherv: rank {r} sends {d.size} elements, rank {self.rank} expects {counts[r]}')
            if t != flat.dtype.str:
                raise Mismatch(f'Allgatherv: {t} received as {flat.dtype.str}')
            if offsets[r] + counts[r] > flat.size:
                raise Mismatch('Allgatherv: the output buffer is too small')
            flat[offsets[r]: offsets[r] + counts[r]] = d

    def Dup(self):
        s = self._call('Dup', None)
        return Comm(s['out'].setdefault('c', Shared(self._s.world, list(self._s.members))), self.rank)

    Clone = Dup

    def Free(self):
        self._freed = True

    def Split(self, color=0, key=0):
        s = self._call('Split', (color, key))
        mem = sorted((s['data'][r][1], r) for r in range(self.size) if s['data'][r][0] == color)
        ranks = [r for _, r in mem]
        sh = s['out'].setdefault(color, Shared(self._s.world, [self._s.members[r] for r in ranks]))
        return Comm(sh, ranks.index(self.rank))

    def Get_group(self):
        return Group(list(range(self.size)))

    def Create(self, group):
        s = self._call('Create', tuple(group.ranks))
        if len(set(s['data'].values())) > 1:
            raise Mismatch(f"different groups given to Create: {s['data']}")
        if self.rank not in group.ranks:
            return COMM_NULL
        sh = s['out'].setdefault('c', Shared(self._s.world, [self._s.members[r] for r in group.ranks]))
        return Comm(sh, group.ranks.index(self.rank))

    def Create_cart(self, dims, periods=None, reorder=False):
        s = self._call('Create_cart', tuple(dims))
        if len(set(s['data'].values())) > 1 or int(np.prod(dims)) != self.size:
            raise Mismatch(f"Create_cart: {s['data']} on {self.size} processes")
        sh = s['out'].setdefault('c', Shared(self._s.world, list(self._s.members)))
        return Cartcomm(sh, self.rank, tuple(dims))

    @classmethod
    def Create_keyval(cls, copy_fn=None, delete_fn=None):
        k = len(_keyvals) + 1
        _keyvals[k] = (copy_fn, delete_fn)
        return k

    def Get_attr(self, k):
        return self._attr.get(k)

    def Set_attr(self, k, v):
        self._attr[k] = v

    def Delete_attr(self, k):
        del self._attr[k]

    def py2f(self):
        return 0


class Cartcomm(Comm):
    def __init__(self, shared, rank, dims):
        Comm.__init__(self, shared, rank)
        self.dims = dims
        self.coords = tuple(int(c) for c in np.unravel_index(rank, dims))

    def Get_coords(self, rank):
        return [int(c) for c in np.unravel_index(rank, self.dims)]

    def Sub(self, remain_dims):
        s = self._call('Sub', tuple(bool(b) for b in remain_dims))
        fixed = tuple(c for c, k in zip(self.coords, remain_dims) if not k)
        mem = [r for r in range(self.size)
               if tuple(c for c, k in zip(np.unravel_index(r, self.dims), remain_dims) if not k) == fixed]
        sh = s['out'].setdefault(fixed, Shared(self._s.world, [self._s.members[r] for r in mem]))
        return Cartcomm(sh, mem.index(self.rank), tuple(d for d, k in zip(self.dims, remain_dims) if k) or (1,))


class _Null:
    size = 0

    def __getattr__(self, name):
        raise RuntimeError(f'{name} called on the null communicator')

    def __bool__(self):
        return False


COMM_NULL = _Null()


class Group:
    def __init__(self, ranks):
        self.ranks = ranks
        self.size = len(ranks)

    def Incl(self, ranks):
        return Group([self.ranks[r] for r in ranks])

    def Excl(self, ranks):
        return Group([r for i, r in enumerate(self.ranks) if i not in ranks])

    def Free(self):
        pass


def _in_place(i):
    from pyoperators import MPI
    return i is IN_PLACE or isinstance(i, (int, str)) and i == MPI.IN_PLACE


def _buf(b):
    if isinstance(b, (list, tuple)):
        b = b[0]
    b = np.asarray(b)
    if not (b.flags.c_contiguous or b.flags.f_contiguous):
        raise ValueError('ndarray is not contiguous')
    return b


def _flat(b):
    f = b.reshape(-1, order='A') if b.flags.c_contiguous else b.T.reshape(-1)
    if b.size and not np.may_share_memory(f, b):
        raise Fatal('not a view')
    return f


def _check_type(b):
    from pyoperators.utils.mpi import DTYPE_MAP
    if isinstance(b, (list, tuple)) and len(b) == 2:
        t = DTYPE_MAP.get(np.asarray(b[0]).dtype)
        if not isinstance(b[1], (tuple, list)) and b[1] != t:
            raise Mismatch('the MPI type is not that of the buffer')


def _reduce(v, op):
    from pyoperators import MPI
    out = copy.copy(v[0])
    if isinstance(out, np.ndarray):
        out = out.copy()
    for x in v[1:]:
        if op in (None, MPI.SUM):
            out = out + x
        elif op == MPI.PROD:
            out = out * x
        elif op == MPI.MIN:
            out = np.minimum(out, x)
        elif op == MPI.MAX:
            out = np.maximum(out, x)
        elif op in (MPI.LAND,):
            out = out and x
        elif op in (MPI.LOR,):
            out = out or x
        else:
            raise Fatal(f'operation {op}')
    return np.asarray(out) if isinstance(v[0], np.ndarray) else out


# --- file input and output -------------------------------------------------------------

class Datatype:
    def __init__(self, dtype, sizes=None, subsizes=None, starts=None):
        self.dtype = np.dtype(dtype)
        self.sizes, self.subsizes, self.starts = sizes, subsizes, starts

    def Create_subarray(self, sizes, subsizes, starts, order=0):
        for a, b, c in zip(sizes, subsizes, starts):
            if b < 1 or c < 0 or b > a or c + b > a:
                raise ValueError(f'MPI_ERR_ARG: subarray {sizes} {subsizes} {starts}')
        return Datatype(self.dtype, list(sizes), list(subsizes), list(starts))

    def Commit(self):
        return self

    def Free(self):
        pass

    def Get_size(self):
        return self.dtype.itemsize * (int(np.prod(self.subsizes)) if self.subsizes else 1)

    def positions(self):
        """Positions of the selected elements in the first tile of the view."""
        g = np.arange(int(np.prod(self.sizes))).reshape(self.sizes)
        return g[tuple(slice(s, s + n) for s, n in zip(self.starts, self.subsizes))].ravel(), g.size


MODE_RDONLY, MODE_RDWR, MODE_WRONLY, MODE_CREATE, MODE_EXCL, MODE_APPEND = 2, 8, 4, 1, 64, 128
INFO_NULL = None


class File:
    @classmethod
    def Open(cls, comm, filename, amode=MODE_RDONLY, info=None):
        if comm is COMM_NULL:
            raise RuntimeError('a file is opened on the null communicator')
        self = cls()
        self.comm, self.amode = comm, amode
        self.path = os.path.abspath(os.fspath(filename))
        comm._call('File.Open', None)
        # opening creates the file if it is missing, whichever process does it
        access(self.path, False)
        flags = os.O_RDWR | (os.O_CREAT if amode & MODE_CREATE else 0)
        w, _local.world = _local.world, None
        try:
            self.fd = os.open(self.path, flags, 0o644)
        finally:
            _local.world = w
        self.disp, self.ftype = 0, None
        self.pos = os.fstat(self.fd).st_size if amode & MODE_APPEND else 0
        return self

    def Set_view(self, disp=0, etype=None, filetype=None, datarep='native', info=None):
        self.comm._call('File.Set_view', None)
        self.disp, self.etype, self.ftype, self.pos = disp, etype, filetype, 0

    def _write(self, buf):
        data = buf[0] if isinstance(buf, (list, tuple)) else buf
        data = np.asarray(data)
        if not data.flags.c_contiguous:
            raise ValueError('ndarray is not contiguous')
        raw = data.tobytes()
        if self.ftype is None or self.ftype.sizes is None:
            access(self.path, True, self.disp + self.pos, self.disp + self.pos + len(raw))
            os.pwrite(self.fd, raw, self.disp + self.pos)
            self.pos += len(raw)
            return
        if data.dtype.itemsize != self.ftype.dtype.itemsize:
            raise ValueError('the buffer and the file have different types')
        pos, ext = self.ftype.positions()
        n = data.size
        size = data.dtype.itemsize
        p = np.concatenate([pos + k * ext for k in range(-(-n // max(1, pos.size)))])[:n] if n else []
        access(self.path, True, *((self.disp + int(p.min()) * size, self.disp + (int(p.max()) + 1) * size) if n else (0, 0)))
        for k, q in enumerate(p):
            os.pwrite(self.fd, raw[k * size:(k + 1) * size], self.disp + int(q) * size)

    def Write_all(self, buf):
        self.comm._call('File.Write_all', None)
        self._write(buf)

    def Write(self, buf):
        self._write(buf)

    def Write_at(self, offset, buf):
        self.pos = offset
        self._write(buf)

    def Write_at_all(self, offset, buf):
        self.comm._call('File.Write_at_all', None)
        self.pos = offset
        self._write(buf)

    def Set_size(self, n):
        self.comm._call('File.Set_size', n)
        os.ftruncate(self.fd, n)

    def Preallocate(self, n):
        pass

    def Close(self):
        self.comm._call('File.Close', None)
        os.close(self.fd)


class Namespace:
    """The MPI module, with the file interface of the model added to the serial stand-in."""
    def __init__(self, base):
        self._base = base
        for k in ('File', 'MODE_RDONLY', 'MODE_RDWR', 'MODE_WRONLY', 'MODE_CREATE', 'MODE_EXCL', 'MODE_APPEND', 'INFO_NULL',
                  'COMM_NULL', 'Group'):
            setattr(self, k, globals()[k])

    def __getattr__(self, k):
        return getattr(self._base, k)


# --- exploration -------------------------------------------------------------------------

def explore(n, body, verdict, root=None, exhaustive=False, setup=None, expect_error=None, cap=3000, soft=False, tick=None):
    """
    body(comm) on n ranks under every schedule; verdict(results) after each. With expect_error, every rank must raise it
    (or, if it is a function, it judges the list of errors).
    """
    nodes = {}
    prefix = []
    nexec = nev = 0

    def execute(prefix, order=()):
        nonlocal nexec, nev
        ctx = setup() if setup else None
        w = World(n, root)
        run = (lambda c: body(c, ctx)) if setup else body
        bad = w.run(run, prefix, order)
        nexec += 1
        nev += len(w.events)
        if tick:
            tick()
        ranks = [e[0] for e in w.events]
        sched = f'{n} processes, schedule {compress(ranks)}'
        if bad:
            raise Mismatch(f'{bad} | {sched}')
        if expect_error is not None and not callable_judge(expect_error):
            for r, e in enumerate(w.error):
                if not isinstance(e, expect_error):
                    raise Mismatch(f'rank {r} does not raise ({e!r}, {w.result[r]!r}) | {sched}')
        else:
            for r, e in enumerate(w.error):
                if e is not None:
                    if isinstance(e, Fatal):
                        raise e
                    raise Mismatch(f'rank {r}: {type(e).__name__}: {e} | {sched}') from e
            try:
                verdict(w.result, ctx) if setup else verdict(w.result)
            except AssertionError as e:
                raise Mismatch(f'{e} | {sched}') from e
        return w, ranks

    while True:
        w, ranks = execute(prefix)
        if nexec == 50:
            # the depth-first order comes late to the schedules that differ from their start: those where processes are
            # always ahead of or behind the others come first (they are explored again in their turn)
            for order in itertools.islice(itertools.permutations(range(n)), 24):
                execute([], order)
        if exhaustive:
            for i in range(len(prefix), len(w.events)):
                en = w.events[i][2]
                if len(en) > 1:
                    nodes[i] = [set(en), {ranks[i]}]
        else:
            _races(w, nodes, ranks)
        while nodes:
            i = max(nodes)
            todo, done = nodes[i]
            left = todo - done
            if left:
                t = min(left)
                done.add(t)
                prefix = ranks[:i] + [t]
                break
            del nodes[i]
        else:
            break
        if nexec >= cap:
            if not soft:
                raise Fatal(f'more than {cap} schedules')
            return {'executions': nexec, 'events': nev, 'capped': f'more than {cap} schedules'}
    return {'executions': nexec, 'events': nev}


def callable_judge(e):
    return not isinstance(e, (type, tuple))


def _races(w, nodes, ranks):
    ev = w.events
    last = {}
    n = w.n
    dep = [list(e[3]) for e in ev]      # clocks completed with the dependencies
    for j, (r, fp, en, _) in enumerate(ev):
        c = dep[j]
        # program order
        for i in range(j - 1, -1, -1):
            if ev[i][0] == r:
                for k in range(n):
                    c[k] = max(c[k], dep[i][k])
                break
        for i in range(j - 1, -1, -1):
            ri, fi = ev[i][0], ev[i][1]
            if ri == r:
                continue
            if _conflict(fp, fi):
                if c[ri] < i + 1:
                    # a race: try r (or whatever leads to it) before i
                    nd = nodes.setdefault(i, [{ranks[i]}, {ranks[i]}])
                    nd[1].add(ranks[i])
                    nd[0] |= {r} if r in ev[i][2] else set(ev[i][2])
                for k in range(n):
                    c[k] = max(c[k], dep[i][k])


def compress(tids):
    return ' '.join(f'{k}x{len(list(g))}' for k, g in itertools.groupby(tids))
