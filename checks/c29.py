"""C29: the tokenize command answers each line before it reads the next."""
import os
import re
import select
import signal
import sys
import time

from hypothesis import strategies as st

from vh import gen, world
from vh.core import Check, Violation, require, short
from vh.zygote import Zygote

CONTROL = ['\x85', '\u2028', '\x0b', '\x1c', '\ufeff', '\0', '\t']


@st.composite
def cases(draw):
    w = draw(gen.worlds(users=st.sampled_from([0, 0, 1]), refs='spell', inhibit=draw(st.booleans()), safe=False, oov=draw(gen.pick(['both', 'simple'])), max_words=6))
    for lex in w['lex']:
        for x in lex:
            if x.get('c') == -32768:
                x['c'] = 1
    lines = []
    for _ in range(draw(gen.ints(2, 7))):
        t = re.sub('[\r\n]', '', draw(gen.texts(w, max_fragments=4, long_=gen.chance(draw, 1, 8))))
        if gen.chance(draw, 1, 6):
            t += draw(gen.pick(CONTROL)) + draw(gen.pick(w['alpha']))
        lines.append(t)
    return {'w': w, 'lines': lines, 'cuts': draw(st.lists(gen.ints(0, 400), max_size=6)), 'groups': draw(st.lists(gen.ints(1, 3), min_size=1, max_size=4)), 'mode': draw(gen.pick('CAB')), 'a': draw(st.booleans()), 'd': gen.chance(draw, 1, 6),
            'how': draw(gen.pick(['stdin', 'stdin', 'fifo', 'fifos'])), 'o': gen.chance(draw, 1, 3), 'end': draw(st.booleans()), 'eol': draw(gen.pick(['\n', '\n', '\r\n']))}


def start(d, args, stdin, stdout):
    """A child that runs the command with these streams."""
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        os.chdir(d)
        quiet = os.open(os.devnull, os.O_RDWR)
        os.dup2(stdin if stdin is not None else quiet, 0)
        os.dup2(stdout if stdout is not None else quiet, 1)
        os.dup2(quiet, 2)
        os.closerange(3, 1000)
        sys.stdin = open(0, encoding='utf-8', newline=None)
        sys.stdout = open(1, 'w', encoding='utf-8')
        sys.stderr = open(2, 'w', encoding='utf-8')
        sys.argv = ['sudachipy'] + args
        from sudachipy import command_line
        try:
            command_line.main()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        sys.stdout.flush()
    except BaseException:
        code = 1
    os._exit(code)


def asleep(pid):
    """Whether every thread of the process waits for something."""
    try:
        for t in os.listdir('/proc/{}/task'.format(pid)):
            with open('/proc/{}/task/{}/stat'.format(pid, t)) as f:
                if f.read().rpartition(')')[2].split()[0] != 'S':
                    return False
    except OSError:
        return False
    return True


def waiting(fd):
    """The bytes in a pipe that nobody has read."""
    import array
    import fcntl
    import termios
    n = array.array('i', [0])
    fcntl.ioctl(fd, termios.FIONREAD, n)
    return n[0]


def ends(out):
    """The positions in the output at which the answers end."""
    found = [m.end() for m in re.finditer(rb'(?m)^EOS\n', out)]
    return found


def converse(d, case):
    """In a forked child. Returns what went wrong, or nothing, and labels."""
    opts = ['tokenize', '-r', os.path.join(d, 'sudachi.json'), '-m', case['mode']] + ['-a'] * case['a'] + ['-d'] * case['d']
    eol = case['eol'].encode()
    data = [t.encode() + eol for t in case['lines']]
    if not case['end']:
        data[-1] = data[-1][:-len(eol)]
        if not data[-1]:
            data.pop()
    if not data:
        return None, ['nothing']
    # everything at once
    with open(os.path.join(d, 'all.txt'), 'wb') as f:
        f.write(b''.join(data))
    out = os.path.join(d, 'all.out')
    with open(out, 'wb') as f:
        pid = start(d, opts + [os.path.join(d, 'all.txt')], None, f.fileno())
        want_code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    with open(out, 'rb') as f:
        want = f.read()
    marks = ends(want)
    if want_code == 0 and len(marks) != len(data):
        return 'not one answer for each line: {} for {}'.format(len(marks), len(data)), []
    labels = ['how: ' + case['how'], 'failing line'] if want_code else ['how: ' + case['how']]
    # one after the other
    pipes = []
    files = []
    shares = [data]
    if case['how'] in ('fifo', 'fifos'):
        if case['how'] == 'fifos' and len(data) > 1:
            shares = [data[:len(data) // 2], data[len(data) // 2:]]
        for i in range(len(shares)):
            files.append(os.path.join(d, 'fifo{}'.format(i)))
            os.mkfifo(files[-1])
    target = os.path.join(d, 'out.txt')
    r, w_ = os.pipe() if not files else (None, None)
    o, i = os.pipe()
    pid = start(d, opts + (['-o', target] if case['o'] else []) + files, r, i)
    os.close(i)
    if r is not None:
        os.close(r)
    got = b''
    ended = None
    gone = False

    def collect(n):
        """Reads until n bytes are there, nothing more can come, or the process waits for input. Returns why it stopped."""
        nonlocal got, ended, gone
        idle = 0
        while len(got) < n:
            if case['o']:
                try:
                    with open(target, 'rb') as f:
                        got = f.read()
                except FileNotFoundError:
                    pass
                if len(got) >= n:
                    break
                if ended is not None:
                    return 'ended'
                time.sleep(0.002)
            elif gone:
                return 'ended'
            elif select.select([o], [], [], 0.02)[0]:
                x = os.read(o, 65536)
                if not x:
                    gone = True
                got += x
                idle = 0
                continue
            if ended is None and case['o']:
                p, s = os.waitpid(pid, os.WNOHANG)
                if p:
                    ended = os.waitstatus_to_exitcode(s)
                    continue
            idle = idle + 1 if asleep(pid) and (fd is None or waiting(fd) == 0) else 0
            if idle > (600 if case['o'] else 60):
                return 'waits'
        return 'there'
    n = 0
    broken = False
    trouble = None
    fd = None
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    cuts = sorted(case['cuts'])
    for k, share in enumerate(shares):
        fd = w_ if w_ is not None else None
        if fd is None:
            # the reader may have ended
            for _ in range(5000):
                try:
                    fd = os.open(files[k], os.O_WRONLY | os.O_NONBLOCK)
                    os.set_blocking(fd, True)
                    break
                except OSError:
                    p, s = os.waitpid(pid, os.WNOHANG) if ended is None else (0, 0)
                    if p:
                        ended = os.waitstatus_to_exitcode(s)
                    if ended is not None:
                        break
                    time.sleep(0.002)
            if fd is None:
                if ended is None:
                    trouble = 'the input {} was never opened'.format(k)
                broken = True
                break
        j = 0
        while j < len(share) and not broken:
            g = case['groups'][(n + j) % len(case['groups'])]
            block = b''.join(share[j:j + g])
            g = len(share[j:j + g])
            at = 0
            for c in [c for c in cuts if 0 < c < len(block)] + [len(block)]:
                try:
                    os.write(fd, block[at:c])
                except BrokenPipeError:
                    broken = True
                    break
                if c < len(block):
                    time.sleep(0.0005)
                at = c
            j += g
            n += g
            if broken or n > len(marks) or not block.endswith(b'\n'):
                # a failing line, or one that goes on
                continue
            why = collect(marks[n - 1])
            if got[:marks[n - 1]] != want[:marks[n - 1]]:
                trouble = 'after {} lines {}: {} instead of {}'.format(n, {'waits': 'the command waits for more', 'ended': 'it has ended', 'there': 'the answer differs'}[why], short(got[-300:]), short(want[:marks[n - 1]][-300:]))
            elif len(got) > marks[n - 1] and n >= len(data) - 1 + bool(case['end']) and len(got) > len(want):
                trouble = 'more than the answer: {}'.format(short(got[marks[n - 1]:]))
            if trouble:
                broken = True
        os.close(fd)
        fd = None
        if broken:
            break
    if trouble:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if ended is None:
            os.waitpid(pid, 0)
        return trouble, labels
    while not gone:
        x = os.read(o, 65536)
        gone = not x
        if not case['o']:
            got += x
    if ended is None:
        ended = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if case['o']:
        try:
            with open(target, 'rb') as f:
                got = f.read()
        except FileNotFoundError:
            got = b''
    if got != want:
        return 'in the end: {} instead of {}'.format(short(got[-400:]), short(want[-400:])), labels
    if bool(ended) != bool(want_code):
        return 'exit code {} instead of {}'.format(ended, want_code), labels
    return None, labels


class C29(Check):
    id = 'C29'
    rule = ('Random worlds and up to six lines written to the standard input of the tokenize command, or to one or two named pipes given as files, one to three lines at a time and in pieces cut anywhere (also within a character); '
            'after each group its answers must be there (on standard output or in the -o file) before anything more is written, and equal those the command gives to all lines in one file; lines whose analysis fails come after complete answers. '
            'Non-trivial: two or more lines answered.')
    quick = 130
    thorough = 3000
    case_timeout = 90
    assumptions = ['standard streams are UTF-8; a command all of whose threads sleep for more than a second with nothing left to read is taken to wait for input']

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        if getattr(self, 'zygote', None) is None:
            self.zygote = Zygote(0, PYTHONUTF8='1')
        with ctx.dir() as d:
            world.write_definitions(case['w'], d)
            world.write_dictionaries(case['w'], d)
            try:
                bad, labels = self.zygote.call('checks.c29', 'converse', str(d), case)
            except RuntimeError as e:
                raise Violation('the conversation failed: {}'.format(e))
        require(not bad, '{}', bad)
        return len(case['lines']) > 1, labels


CHECK = C29()
