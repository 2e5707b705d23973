"""Builds the code under test from the current tree of /repo into a scratch directory.

Nothing of /repo's own build products is used: a check has to see the tree as it is now."""
import os
import shutil
import subprocess
import sys
import sysconfig
from pathlib import Path

REPO = Path(os.environ.get('VERIF_REPO', '/repo'))


class BuildError(Exception):
    pass


def _run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError('{}: {}'.format(' '.join(map(str, cmd)), p.stdout.decode('utf-8', 'replace')[-3000:]))


def build(dest):
    """Copies /repo/sudachipy to dest/sudachipy and compiles its extension modules there; returns dest."""
    dest = Path(dest)
    src = REPO / 'sudachipy'
    pyx_c = {p.with_suffix('.c') for p in src.rglob('*.pyx')}

    def ignore(d, names):
        out = []
        for n in names:
            p = Path(d) / n
            if n == '__pycache__' or n.endswith(('.so', '.pyc')) or p in pyx_c:
                out.append(n)
        return out

    shutil.copytree(src, dest / 'sudachipy', ignore=ignore)
    try:
        _build_fast(dest)
    except (BuildError, OSError, subprocess.TimeoutExpired):
        _build_setup_py(dest)
    return dest


def _build_fast(dest):
    bindir = Path(sys.executable).parent
    inc = sysconfig.get_paths()['include']
    ext = sysconfig.get_config_var('EXT_SUFFIX')
    pyx = sorted((dest / 'sudachipy').rglob('*.pyx'))
    # one process per module, as setup.py's extensions are
    procs = []
    for p in pyx:
        rel = p.relative_to(dest)
        c = rel.with_suffix('.c')
        so = rel.with_suffix('')
        script = 'set -e; "{cy}" "{pyx}" -o "{c}"; gcc -shared -fPIC -O1 -fwrapv -w -I"{inc}" "{c}" -o "{so}{ext}"'.format(
            cy=bindir / 'cython', pyx=rel, c=c, inc=inc, so=so, ext=ext)
        procs.append((rel, subprocess.Popen(['bash', '-c', script], cwd=dest, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = []
    for rel, q in procs:
        out, _ = q.communicate(timeout=600)
        if q.returncode:
            bad.append('{}: {}'.format(rel, out.decode('utf-8', 'replace')[-2000:]))
    if bad:
        raise BuildError('\n'.join(bad))


def _build_setup_py(dest):
    for n in ('setup.py', 'README.md', 'MANIFEST.in'):
        if (REPO / n).exists():
            shutil.copy(REPO / n, dest / n)
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.5.4')
    p = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace'], cwd=dest, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode:
        raise BuildError(p.stdout.decode('utf-8', 'replace')[-3000:])
