"""
Builds, from the working tree of /repo, the compiled extension that the checks load.

Nothing is written in /repo or /opt: meson gets its own build directory under
/verif/.build (ignored by git), named after a hash of everything that the build reads,
so that an unchanged tree is not rebuilt and a changed one always is.

Two variants:
  plain  the extension as the project builds it
  mc     the same sources compiled with gfortran's thread-sanitizer instrumentation and linked with
         our controlled OpenMP runtime (omp/mcomp.c) instead of libgomp and libtsan
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
BUILD = VERIF / '.build'
VENV_BIN = '/opt/venv/bin'


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env['PATH'] = f'{VENV_BIN}:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['SETUPTOOLS_SCM_PRETEND_VERSION'] = '2.0.0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('PYTHONPATH', None)
    env.pop('MAKEFLAGS', None)
    return env


def source_hash(variant):
    h = hashlib.sha256(variant.encode())
    files = [REPO / 'meson.build', REPO / 'meson.options', REPO / 'src/meson.build']
    files += sorted((REPO / 'src/flib').rglob('*')) + sorted((REPO / 'tools').rglob('*'))
    if variant != 'plain':
        files += [VERIF / 'mc/omp/mcomp.c']
    files += [Path(__file__)]
    for f in files:
        if f.is_file() and '__pycache__' not in f.parts:
            h.update(str(f).encode() + b'\0' + f.read_bytes() + b'\0')
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    p = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(f'{" ".join(map(str, cmd))}\n{p.stdout[-4000:]}')
    return p.stdout


def extension(variant='plain'):
    """Path of the extension module built from the current tree."""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / f'lock-{variant}', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = source_hash(variant)
        d = BUILD / f'{variant}-{h}'
        target = d / '_flib.so'
        if target.exists():
            return target
        for old in sorted(BUILD.glob(f'{variant}-*'), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = Path(tempfile.mkdtemp(prefix='pysimulators-mc-'))
        try:
            args = ['meson', 'setup', str(tmp / 'b'), str(REPO)]
            if variant == 'plain':
                args += ['-Dbuildtype=release']
            else:
                opt = '-O0' if variant == 'mc' else '-O1'
                args += ['-Dbuildtype=plain', f'-Dfortran_args={opt} -g -fsanitize=thread']
            _run(args)
            _run(['ninja', '-C', str(tmp / 'b')])
            sos = glob.glob(str(tmp / 'b/src/flib/_flib*.so'))
            if len(sos) != 1:
                raise BuildError(f'extension not found: {sos}')
            d.mkdir(exist_ok=True)
            if variant == 'plain':
                shutil.copy(sos[0], d / 'tmp.so')
            else:
                objs = sorted(glob.glob(str(tmp / 'b/src/flib/*.p/*.o')))
                _run(['gcc', '-O2', '-fPIC', '-w', '-c', str(VERIF / 'mc/omp/mcomp.c'), '-o', str(tmp / 'mcomp.o')])
                _run(['gcc', '-shared', '-o', str(d / 'tmp.so'), *objs, str(tmp / 'mcomp.o'), '-lgfortran', '-lm',
                      '-Wl,-Bsymbolic', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'])
            os.rename(d / 'tmp.so', target)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return target


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'mc']:
        print(extension(v))
