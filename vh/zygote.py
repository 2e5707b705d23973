"""A pristine process with its own hash seed that answers requests in forked children: what they compute has no history."""
import importlib
import json
import os
import subprocess
import sys
import traceback


class Zygote:
    def __init__(self, hash_seed, **more):
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), **more)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, '-m', 'vh.zygote'], cwd=here, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def call(self, module, name, *args):
        """Runs module.name(*args) in a fresh child. Returns its JSON result, raises RuntimeError with its traceback."""
        self.p.stdin.write(json.dumps([module, name, args]).encode() + b'\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('zygote ended')
        ok, r = json.loads(line)
        if not ok:
            raise RuntimeError(r)
        return r


def in_child(fn, *args):
    """fn(*args) in a forked child; (ok, result or traceback). The child dies with its changes."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = json.dumps([True, fn(*args)])
        except BaseException:
            out = json.dumps([False, traceback.format_exc()[-3000:]])
        with os.fdopen(w, 'w') as f:
            f.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return [False, 'child crashed']
    return json.loads(data)


def main():
    sys.path.insert(0, os.environ['VERIF_SUT'])
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import sudachipy  # noqa: F401
    import sudachipy.dictionary  # noqa: F401
    for line in sys.stdin:
        module, name, args = json.loads(line)
        fn = getattr(importlib.import_module(module), name)
        out.write(json.dumps(in_child(fn, *args)) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
