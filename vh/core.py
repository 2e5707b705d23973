"""What a check is, and how violations are told from errors of the harness."""
import contextlib
import hashlib
import json
import traceback


class Violation(Exception):
    """The property is broken on the current case."""


class Inconclusive(Exception):
    """The case decides nothing (counted, never a violation)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*[short(a) for a in args]) if args else msg)


def short(x, n=300):
    if isinstance(x, int):
        return x
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...({} chars)'.format(len(s))


def eq(actual, expected, what, *args):
    if actual != expected:
        raise Violation('{}: got {} expected {}'.format(what.format(*[short(a) for a in args]) if args else what,
                                                        short(actual), short(expected)))


@contextlib.contextmanager
def sut(what='call'):
    """Calls into the code under test: an exception in there is a violation (the caller knows the call must succeed)."""
    try:
        yield
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = '; '.join('{}:{}'.format(f.filename.rsplit('/', 1)[-1], f.lineno) for f in tb[-3:])
        raise Violation('{} raised {}: {} [{}]'.format(what, type(e).__name__, short(str(e)), loc)) from e


def expect_error(fn, what):
    """fn must raise an ordinary exception; returns it."""
    try:
        fn()
    except Exception as e:
        return e
    raise Violation('{}: no error was raised'.format(what))


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, ensure_ascii=True).encode()).hexdigest()[:16]


class Check:
    """A property as an executable check: strategy() generates JSON cases, run() decides one."""
    id = None
    rule = ''
    # cases per worker process
    quick = 200
    thorough = 4000
    case_timeout = 60
    workers = 8

    def strategy(self, tier):
        raise NotImplementedError

    def corpus(self, tier):
        """Fixed cases that are run first (sizes the generators reach too seldom)."""
        return []

    def run(self, case, ctx):
        """Returns (nontrivial, labels); raises Violation."""
        raise NotImplementedError

    def extra_env(self):
        return {}


class Ctx:
    """Per-process services for run(): a scratch directory."""

    def __init__(self, scratch):
        import pathlib
        self.scratch = pathlib.Path(scratch)
        self._n = 0

    @contextlib.contextmanager
    def dir(self):
        import shutil
        self._n += 1
        d = self.scratch / 'c{}'.format(self._n)
        d.mkdir(parents=True)
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)
