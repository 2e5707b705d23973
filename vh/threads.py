"""A generated schedule for threads: they run one at a time and change over at traced steps."""
import os
import sys
import threading
import time


class Schedule:
    """runs: numbers of steps before each change, repeated. Each thread must call into the code under test; every line (or
    bytecode) of its Python frames is a step. A thread that blocks loses its turn after a moment. When the time is up the
    threads run to their end one after the other."""

    def __init__(self, n, runs, prefix, opcodes=False, seconds=6):
        self.n, self.runs, self.prefix, self.opcodes = n, runs, prefix, opcodes
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.cur = 0
        self.k = 0
        self.left = runs[0]
        self.steps = 0
        self.changes = 0
        self.stolen = 0
        self.blocked = set()
        self.end = time.monotonic() + seconds

    def next(self, after):
        for i in range(1, self.n + 1):
            c = (after + i) % self.n
            if c in self.alive and c not in self.blocked:
                return c
        return after

    def step(self, me):
        if self.cur != me:
            self.blocked.discard(me)
            self.wait(me)
        if self.blocked and self.left < 1 << 40:
            # it may go on as soon as a lock is free
            time.sleep(0.00001)
        self.steps += 1
        self.left -= 1
        if self.left > 0:
            return
        self.k += 1
        self.left = self.runs[self.k % len(self.runs)] if time.monotonic() < self.end else 1 << 50
        other = self.next(me)
        if other == me:
            return
        with self.cond:
            self.cur = other
            self.changes += 1
            self.cond.notify_all()
        self.wait(me)

    def wait(self, me):
        with self.cond:
            while self.cur != me:
                seen = (self.cur, self.steps)
                if not self.cond.wait(0.003) and self.cur != me and seen == (self.cur, self.steps):
                    # whoever has the turn waits for something
                    self.stolen += 1
                    self.blocked.add(self.cur)
                    self.cur = me
                    self.cond.notify_all()

    def done(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.cur == me:
                self.blocked &= self.alive
                self.cur = self.next(me)
                if self.cur == me and self.alive:
                    self.cur = min(self.alive)
            self.cond.notify_all()

    def tracer(self, me):
        prefix, opcodes, step = self.prefix, self.opcodes, self.step

        def local(frame, event, arg):
            if event == ('opcode' if opcodes else 'line'):
                step(me)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def run(self, jobs, timeout=60):
        """Results of the jobs: ('ok', value) or ('error', exception)."""
        out = [None] * self.n

        def body(me):
            self.wait(me)
            sys.settrace(self.tracer(me))
            try:
                out[me] = ('ok', jobs[me]())
            except BaseException as e:
                out[me] = ('error', e)
            finally:
                sys.settrace(None)
                self.done(me)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)
            if t.is_alive():
                raise TimeoutError('threads did not end')
        return out


def sut_prefix():
    return os.path.join(os.path.realpath(os.environ['VERIF_SUT']), 'sudachipy') + os.sep
