"""
Runner shared by the checks.

A check module (checks/cNN.py) defines

  PID, LEVEL?, BOUNDS (text), ASSUMPTIONS (list), VARIANT ('plain' or 'mc')
  scenarios(tier) -> list of (name, function(ck))       enumerates a finite space completely

A scenario enumerates its cases and runs each with ck.check(key, function, *args): the function
executes the real code of /repo, compares each step with the reference model and raises on a
difference.  The scenarios are spread over forked workers, so that a crash or a hang of the
compiled code is attributed to the case that was running and reported as a violation.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPLAYS = VERIF / 'replays'
SLOT = 4096
HANG_S = 240


class Capped(Exception):
    """Raised by a scenario that stops before having enumerated its space."""


class Mismatch(AssertionError):
    pass


class Fatal(Exception):
    """An error of the machinery, never a violation."""


def h64(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode()
    return struct.unpack('<Q', hashlib.blake2b(obj, digest_size=8).digest())[0]


class Check:
    def __init__(self, scenario, tier, slot=None, target=None, max_violations=5, deadline=None, known=()):
        self.scenario = scenario
        self.tier = tier
        self.quick = tier == 'quick'
        self.slot = slot
        self.target = target
        self.max_violations = max_violations
        self.states = set()
        self.nstates = 0
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.capped = None
        self.partial = []
        self.deadline = deadline
        self.known = known
        self.nnew = 0

    def _mark(self, text):
        if self.slot is not None:
            b = text.encode('utf8', 'replace')[: SLOT - 12]
            self.slot[4:12] = struct.pack('<d', time.monotonic())
            self.slot[12 : 12 + len(b)] = b
            self.slot[0:4] = struct.pack('<I', len(b))

    def state(self, canon):
        self.states.add(h64(canon))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def check(self, key, func, *args, steps=1, **kw):
        """Run one history against the implementation. Returns True if it conforms."""
        if not isinstance(key, str):
            key = repr(key)
        if self.target is not None and key != self.target:
            return True
        self._mark(f'{self.scenario}\t{key}')
        global _current
        _current = self
        self.traces += 1
        if len(self.samples) < 2 or (self.traces % 997 == 0 and len(self.samples) < 4):
            self.samples.append(f'{self.scenario}: {key}'[:600])
        try:
            r = func(*args, **kw)
            if r is not None:
                self.outcomes.add(h64(r))
            return True
        except Capped:
            raise
        except Fatal:
            raise
        except (Exception, SystemExit) as e:
            tb = traceback.format_exc().strip().splitlines()
            self.violation(key, f'{type(e).__name__}: {e}', tb[-12:])
            return False

    def violation(self, key, message, detail=()):
        self.violations.append(
            {'scenario': self.scenario, 'key': key, 'message': str(message)[:2000], 'detail': list(detail)}
        )
        if (self.scenario, key) in self.known:
            return
        self.nnew += 1
        if self.nnew >= self.max_violations:
            raise Capped('too many violations')

    def tick(self):
        """To be called in long enumerations outside check()."""
        self._mark(self.scenario + '\t(enumerating)')

    def tick_case(self):
        """Progress inside a long case: it is not hanging."""
        if self.slot is not None:
            self.slot[4:12] = struct.pack('<d', time.monotonic())

    def result(self):
        return {
            'scenario': self.scenario, 'states': self.states, 'nstates': self.nstates, 'outcomes': self.outcomes,
            'transitions': self.transitions, 'traces': self.traces, 'samples': self.samples,
            'violations': self.violations, 'extra': self.extra, 'capped': self.capped,
            'partial': self.partial,
        }


_current = None


def _seen(*obs):
    """One checked step: counts the transition and the observed state that it reached."""
    c = _current
    if c is not None:
        c.transitions += 1
        c.states.add(hash(obs) & 0xffffffffffffffff)


def eq(got, expected, what=''):
    _seen(repr(got)[:500], what)
    if not (got == expected):
        raise Mismatch(f'{what}: got {got!r}, expected {expected!r}')


def require(cond, what=''):
    _seen(bool(cond), what)
    if not cond:
        raise Mismatch(what)


def same_array(got, expected, what='', dtype=None, shape=True, rtol=0, atol=0):
    import numpy as np
    g, e = np.asarray(got), np.asarray(expected)
    if _current is not None and g.size < 4096 and g.dtype.kind != 'O':
        _seen(g.tobytes(), g.shape, g.dtype.str)
    else:
        _seen(what, g.shape)
    if shape and g.shape != e.shape:
        raise Mismatch(f'{what}: shape {g.shape} instead of {e.shape}')
    if dtype is not None and g.dtype != np.dtype(dtype):
        raise Mismatch(f'{what}: dtype {g.dtype} instead of {np.dtype(dtype)}')
    if rtol == 0 and atol == 0:
        if g.dtype.kind in 'fc' and e.dtype.kind in 'fciub':
            ok = bool(np.all((g == e) | ((g != g) & (e != e))))
        else:
            ok = bool(np.all(g == e))
    else:
        ok = bool(np.allclose(g.astype(complex) if g.dtype.kind == 'c' else g.astype(float),
                              e.astype(complex) if e.dtype.kind == 'c' else e.astype(float),
                              rtol=rtol, atol=atol, equal_nan=True))
    if not ok:
        raise Mismatch(f'{what}: got {g.tolist()!r}, expected {e.tolist()!r}'[:1500])


def raises(exc, func, *args, **kw):
    """The call must raise one of the given exceptions."""
    try:
        r = func(*args, **kw)
    except exc as e:
        _seen(type(e).__name__, str(e)[:200])
        return
    raise Mismatch(f'no {exc} raised, returned {r!r}'[:500])


# ---------------------------------------------------------------------------------------

def known_findings(pid):
    out = {}
    f = VERIF / 'known_findings.jsonl'
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get('property') == pid and e.get('status') == 'known':
                    out[(e['scenario'], e['key'])] = e
    return out


def _worker(scns, tier, slot, wfd, counter, deadline, known):
    out = os.fdopen(wfd, 'wb')
    while True:
        with counter['lock']:
            i = struct.unpack('<I', counter['mm'][0:4])[0]
            counter['mm'][0:4] = struct.pack('<I', i + 1)
        if i >= len(scns):
            break
        name, func = scns[i]
        slot[0:4] = struct.pack('<I', 0)
        ck = Check(name, tier, slot, deadline=deadline, known=known)
        ck._mark(name + '\t(start)')
        err = None
        try:
            func(ck)
        except Capped as e:
            ck.capped = str(e) or 'capped'
        except Fatal as e:
            err = f'{name}: {e}'
        except BaseException:
            err = f'{name}: error outside a case\n' + traceback.format_exc()
        slot[4:12] = struct.pack('<d', 0.0)
        b = pickle.dumps((i, ck.result(), err))
        out.write(struct.pack('<Q', len(b)) + b)
        out.flush()
        if err:
            break
    out.close()
    sys.stdout.flush()
    os._exit(0)


def run_scenarios(scns, tier, nworkers, deadline, known=()):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    counter = {'lock': ctx.Lock(), 'mm': mmap.mmap(-1, 4096)}
    results, crashes, errors = {}, [], []
    procs = {}

    def spawn():
        slot = mmap.mmap(-1, SLOT)
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(scns, tier, slot, w, counter, deadline, known)
            finally:
                os._exit(3)
        os.close(w)
        procs[r] = [pid, slot, b'']

    def current(slot):
        n = struct.unpack('<I', slot[0:4])[0]
        s = slot[12 : 12 + n].decode('utf8', 'replace')
        return s.split('\t', 1) if '\t' in s else [s, '']

    for _ in range(min(nworkers, len(scns))):
        spawn()
    ncrash = 0
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 2)
        for r in ready:
            b = os.read(r, 1 << 20)
            p = procs[r]
            if b:
                p[2] += b
                while len(p[2]) >= 8:
                    n = struct.unpack('<Q', p[2][:8])[0]
                    if len(p[2]) < 8 + n:
                        break
                    i, res, err = pickle.loads(p[2][8 : 8 + n])
                    p[2] = p[2][8 + n :]
                    results[i] = res
                    if err:
                        errors.append(err)
                continue
            os.close(r)
            _, st = os.waitpid(p[0], 0)
            slot = p[1]
            del procs[r]
            if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) != 0:
                scn, key = current(slot)
                why = f'signal {os.WTERMSIG(st)}' if os.WIFSIGNALED(st) else f'exit {os.WEXITSTATUS(st)}'
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL and not p[3:]:
                    errors.append(f'worker killed while running {scn} {key}')
                else:
                    msg = p[3] if p[3:] else f'the process died ({why})'
                    crashes.append({'scenario': scn, 'key': key, 'message': msg, 'detail': []})
                    ncrash += 1
                    if ncrash < 4:
                        spawn()
        now = time.monotonic()
        for r, p in procs.items():
            t = struct.unpack('<d', p[1][4:12])[0]
            if t and now - t > HANG_S and not p[3:]:
                p.append(f'no answer after {HANG_S} s')
                os.kill(p[0], signal.SIGKILL)
    return results, crashes, errors


def main(modname, argv):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--replay='):
            replay = a.split('=', 1)[1]
        elif a.startswith('--only='):
            pass
    only = [a.split('=', 1)[1] for a in argv if a.startswith('--only=')]
    from . import build, load
    mod = importlib.import_module('checks.' + modname)
    pid = mod.PID
    try:
        pre = getattr(mod, 'prepare', None)
        if getattr(mod, 'LOAD', True):
            load.load(getattr(mod, 'VARIANT', 'plain'))
        if pre:
            pre(tier)
    except build.BuildError as e:
        print(f'{pid}: the tree does not build\n{e}')
        return 2
    scns = mod.scenarios(tier)
    names = [n for n, _ in scns]
    if len(set(names)) != len(names):
        raise Fatal('duplicate scenario names')
    if replay:
        rec = json.loads(Path(replay).read_text())
        func = dict(scns)[rec['scenario']]
        ck = Check(rec['scenario'], tier, target=rec['key'])
        try:
            func(ck)
        except Capped:
            pass
        for v in ck.violations:
            print(json.dumps(v, indent=1))
        print('reproduced' if ck.violations else f'not reproduced ({ck.traces} case run)')
        return 1 if ck.violations else 0
    if only:
        scns = [s for s in scns if any(o in s[0] for o in only)]
    nworkers = int(os.environ.get('VERIF_WORKERS', getattr(mod, 'WORKERS', 8)))
    known = known_findings(pid)
    results, crashes, errors = run_scenarios(scns, tier, nworkers, None, set(known))
    if errors:
        print(f'{pid}: machinery error')
        for e in errors:
            print(e)
        return 2
    states, outcomes = set(), set()
    transitions = traces = nstates = 0
    samples, extra, capped, partial, viols, per = [], {}, [], [], list(crashes), {}
    for i in sorted(results):
        r = results[i]
        states |= {(r['scenario'], s) for s in r['states']}
        nstates += r['nstates']
        outcomes |= r['outcomes']
        transitions += r['transitions']
        traces += r['traces']
        samples += r['samples'][:2]
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        if r['capped']:
            capped.append(f"{r['scenario']}: {r['capped']}")
        partial += r['partial']
        viols += r['violations']
        per[r['scenario']] = r['traces']
    kf, new = {}, []
    for v in viols:
        e = known.get((v['scenario'], v['key']))
        (kf.setdefault((v['scenario'], v['key']), e) if e else new.append(v))
    if len(samples) > 12:
        samples = samples[:: max(1, len(samples) // 12)][:12]
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {
        'states': len(states) + nstates, 'transitions': transitions, 'traces_validated_against_impl': traces,
        'distinct_outcomes': len(outcomes), 'samples': samples or ['none'], 'bounds': mod.BOUNDS,
        'exhaustive': not capped and not partial and not crashes and not only, 'capped': capped,
        'explored_up_to_a_cap': partial[:400], 'scenarios': per,
        **extra,
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(new),
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{pid}.json').write_text(json.dumps(ev, indent=1) + '\n')
    for k, e in kf.items():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    print(f'{pid} {tier}: {len(states) + nstates} states, {transitions} transitions, {traces} histories, '
          f"{len(outcomes)} outcomes, {len(capped)} capped, {ev['wall_s']} s")
    if not traces and not crashes:
        print('nothing was explored')
        return 2
    if new:
        REPLAYS.mkdir(exist_ok=True)
        for n, v in enumerate(new[:20]):
            path = REPLAYS / f'{pid}-{n}.json'
            v = dict(v, property=pid, tier=tier, how=f'/verif/bin/check {modname} {tier} --replay={path}')
            path.write_text(json.dumps(v, indent=1) + '\n')
            print(f"  {v['scenario']} | {v['key'][:300]} | {v['message'][:400]}")
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


