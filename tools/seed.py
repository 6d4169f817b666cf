"""
Plants a bug: seed.py SPEC.py [SPEC.py ...]

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(path, old, new)], DEMO (python program: exit 0 when the
property holds) and optionally ENV (shell assignments) and CHECKS.  In a private mount namespace whose /repo,
build folder and /verif are scratch copies: applies the edits, checks that the demo passes without them and fails with
them, that the stable tests still pass, and reports which checks catch the change.  /verif/seeded/<ID> is written
when the change counts.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path('/verif')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def inner(spec, work, dest):
    work = Path(work)
    for a, b in (('repo', '/repo'), ('build', '/opt/pysimulators-build'), ('vp', '/opt/vp'), ('verif', '/verif')):
        subprocess.check_call(['mount', '--bind', str(work / a), b])
    os.chdir('/repo')
    ns = {}
    exec(Path(spec).read_text(), ns)
    sid, pid = ns['ID'], ns['PROPERTY']
    out = work / 'out'
    out.mkdir()
    (out / 'demo.py').write_text(ns['DEMO'].lstrip())
    (out / 'demo.sh').write_text(
        '#!/bin/bash\n# run in /repo after the build\nset -e\nd="$(cd "$(dirname "$0")" && pwd)"\n'
        f'export PYTHONDONTWRITEBYTECODE=1 {ns.get("ENV", "OMP_NUM_THREADS=2")}\n'
        'exec timeout 200 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(out / 'demo.sh', 0o755)
    (out / 'meta.json').write_text(json.dumps({'property': pid, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, indent=1) + '\n')
    log = []
    if sh('bash /opt/vp/build.sh').returncode:
        return 'clean tree does not build'
    r = sh(f'bash {out}/demo.sh')
    if r.returncode:
        return f'demo fails on the clean tree\n{r.stdout[-1500:]}'
    for path, old, new in ns['EDITS']:
        p = Path('/repo') / path
        s = p.read_text()
        if s.count(old) != 1:
            return f'{s.count(old)} matches in {path} of {old!r}'
        p.write_text(s.replace(old, new))
    (out / 'patch.diff').write_text(sh('git diff').stdout)
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        return f'patched tree does not build\n{r.stdout[-1500:]}'
    r = sh(f'bash {out}/demo.sh')
    if r.returncode == 0:
        return 'demo passes on the patched tree'
    log.append('demo: ' + (r.stdout.strip().splitlines() or ['?'])[-1][:200])
    passed = set()
    base = json.loads(Path('/opt/vp/BASELINE.json').read_text())
    stable = base['stable']
    for _ in range(3):
        sh(f'bash /opt/vp/test.sh {work}/t.json')
        passed |= set(json.loads((work / 't.json').read_text())['passed'])
        miss = [s for s in stable if s not in passed]
        if not miss:
            break
    if miss:
        return f'{len(miss)} stable tests fail: {miss[:5]}'
    caught = []
    for c in ns.get('CHECKS', [pid.lower()]):
        r = sh(f'/verif/bin/check {c} quick')
        hit = f'VIOLATION property={c.upper()}' in r.stdout and r.returncode == 1
        caught.append(f'{c}: {"CAUGHT" if hit else "missed rc=%d" % r.returncode} ' + ([l for l in r.stdout.splitlines() if '|' in l] or [r.stdout[-300:]])[0][:250])
    shutil.copytree(out, dest)
    return '; '.join(log + caught)


def main(specs):
    for spec in specs:
        ns = {}
        exec(Path(spec).read_text(), ns)
        work = Path(tempfile.mkdtemp(prefix='seed-', dir='/tmp'))
        try:
            for a, b in (('/repo', 'repo'), ('/opt/pysimulators-build', 'build'), ('/opt/vp', 'vp'), ('/verif', 'verif')):
                subprocess.check_call(['cp', '-a', a, str(work / b)])
            sh(f'git -C {work}/repo checkout -q -- . && git -C {work}/verif stash -q -u', )
            res = subprocess.run(['unshare', '-Urm', sys.executable, __file__, '--inner', os.path.abspath(spec), str(work), str(work / 'dest')],
                                 text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(f"{ns['ID']}: {res.stdout.strip()}", flush=True)
            if (work / 'dest').exists():
                d = VERIF / 'seeded' / ns['ID']
                if d.exists():
                    shutil.rmtree(d)
                shutil.copytree(work / 'dest', d)
                f = VERIF / 'tools/caught.json'
                c = json.loads(f.read_text()) if f.exists() else {}
                c[ns['ID']] = ', '.join(re.findall(r'(c\d\d): CAUGHT', res.stdout)) or 'missed'
                f.write_text(json.dumps(c, indent=1, sort_keys=True) + '\n')
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--inner':
        print(inner(*sys.argv[2:]))
    else:
        main(sys.argv[1:])
