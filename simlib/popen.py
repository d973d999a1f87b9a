"""Simulated child processes for iwyu_tool.py.

A child is described by a behaviour: when it writes what, and how it ends.
Children advance only as the simulated clock does.
"""
import errno
import heapq
import io
import os
import subprocess

from . import vos


class Child(object):
    def __init__(self, index, argv, cwd, start):
        self.index = index          # of its behaviour
        self.argv = argv
        self.cwd = cwd
        self.start = start
        self.end = None             # time of exit
        self.code = None
        self.target = None
        self.done = False
        self.reaped = False         # the parent knows


class Children(object):
    """The child processes of one run, and the history of what they did."""
    def __init__(self, kernel, match):
        self.k = kernel
        self.match = match          # (argv, cwd) -> behaviour or None
        self.events = []            # (time, seq, function)
        self.seq = 0
        self.started = []
        self.history = []           # ('start'|'exit'|'spawn-failed', ...)
        self.on_start = None
        self.max_running = 0
        self.steps_since_event = 0

    def at(self, t, f):
        self.seq += 1
        heapq.heappush(self.events, (t, self.seq, f))

    def running(self):
        return sum(1 for c in self.started if c.end is None or
                   c.end > self.k.now)

    def advance(self):
        """Lets everything due by now happen."""
        while self.events and self.events[0][0] <= self.k.now:
            t, _, f = heapq.heappop(self.events)
            f(t)

    def run_until(self, child):
        """Jumps the clock until child has ended."""
        while not child.done:
            if not self.events:
                raise vos.SimHang()
            self.k.now = max(self.k.now, self.events[0][0])
            self.advance()

    def spawn(self, argv, cwd, target):
        """target(bytes) receives the output."""
        k = self.k
        b = self.match(argv, cwd)
        k.note('spawn', repr(argv), cwd)
        c = Child(b['index'] if b else None, argv, cwd, k.now)
        if b is not None and b.get('spawn_error'):
            self.history.append(('spawn-failed', c))
            raise OSError(getattr(errno, b['spawn_error']),
                          os.strerror(getattr(errno, b['spawn_error'])),
                          argv[0])
        try:
            if cwd is not None and k.fs.node(k.path(cwd)).kind != 'dir':
                raise vos.oserror(errno.ENOTDIR, cwd)
        except OSError:
            self.history.append(('spawn-failed', c))
            raise
        self.advance()
        if self.on_start:
            self.on_start(c)
        c.target = target
        self.started.append(c)
        self.history.append(('start', c))
        self.max_running = max(self.max_running, self.running())
        if b is None:
            b = {'chunks': [[0.0, b'']], 'end': 0.001, 'code': 0}
        if 'run' in b:
            # A real analysis, of the files as they are now.
            b = b['run'](argv, cwd)
        t = k.now
        for dt, data in b['chunks']:
            def out(when, data=data):
                if c.done:
                    return
                k.note('child-write', c.index, len(data))
                target(data)
            self.at(t + dt, out)

        def end(when):
            if c.done:
                return
            c.code = b['code']
            c.end = when
            c.done = True
            k.note('child-exit', c.index, c.code)
            self.history.append(('exit', c))
        self.at(t + b['end'], end)
        return c


def make_popen(kernel, children):
    class SimPopen(object):
        def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                     stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                     shell=False, cwd=None, env=None, universal_newlines=None,
                     startupinfo=None, creationflags=0, restore_signals=True,
                     start_new_session=False, pass_fds=(), *, text=None,
                     encoding=None, errors=None, user=None, group=None,
                     extra_groups=None, umask=-1, pipesize=-1,
                     process_group=None):
            self.args = args
            self._text = bool(text or universal_newlines or encoding or errors)
            self._encoding = encoding or 'utf-8'
            self._errors = errors or 'strict'
            kernel.enter('spawn', str(args[0]) if args else '')
            argv = [args] if isinstance(args, str) else list(args)
            for a in argv:
                if '\0' in os.fspath(a):
                    raise ValueError('embedded null byte')
            self.stdin = self.stdout = self.stderr = None
            self._pipe = bytearray()
            self._err = bytearray()
            out = self._target(stdout, 'stdout', self._pipe)
            if stderr == subprocess.STDOUT:
                err = out
            else:
                err = self._target(stderr, 'stderr', self._err)
            self._piped = stdout == subprocess.PIPE
            self._err_piped = stderr == subprocess.PIPE

            # include-what-you-use writes its report to standard error, and
            # the behaviours say so: (stream, bytes) or just bytes.
            def target(data):
                if isinstance(data, tuple):
                    (out if data[0] == 1 else err)(data[1])
                else:
                    err(data)
            self.returncode = None
            self.child = children.spawn(argv, os.fspath(cwd) if cwd else None,
                                        target)
            self.pid = 5000 + len(children.started)
            if self._piped:
                self.stdout = _Pipe(self, self._pipe)
            if self._err_piped:
                self.stderr = _Pipe(self, self._err)

        def _target(self, f, which, pipe):
            if f is None:
                return lambda data: kernel.stream_write(which, data)
            if f == subprocess.PIPE:
                return pipe.extend
            if f == subprocess.DEVNULL:
                return lambda data: None
            fd = f if isinstance(f, int) else f.fileno()
            if fd in (1, 2):
                name = 'stdout' if fd == 1 else 'stderr'
                return lambda data: kernel.stream_write(name, data)
            o = kernel.ofd(fd)        # shared with the parent from now on

            def write(data):
                if o.flags & os.O_APPEND:
                    o.offset = len(o.node.data)
                kernel.fs.write(o.node, o.offset, data)
                o.offset += len(data)
            return write

        def poll(self):
            kernel.enter('poll')
            kernel.now += 1e-7
            children.advance()
            if self.child.done:
                self.child.reaped = True
                self.returncode = self.child.code
            return self.returncode

        def wait(self, timeout=None):
            kernel.enter('poll')
            if timeout is None:
                children.run_until(self.child)
            else:
                limit = kernel.now + timeout
                children.advance()
                while not self.child.done and children.events and \
                        children.events[0][0] <= limit:
                    kernel.now = max(kernel.now, children.events[0][0])
                    children.advance()
                if not self.child.done:
                    kernel.now = limit
                    raise subprocess.TimeoutExpired(self.args, timeout)
            self.child.reaped = True
            self.returncode = self.child.code
            return self.returncode

        def communicate(self, input=None, timeout=None):
            self.wait(timeout)
            a = bytes(self._pipe) if self._piped else None
            b = bytes(self._err) if self._err_piped else None
            if self._text:
                a = a.decode(self._encoding, self._errors) if a is not None \
                    else None
                b = b.decode(self._encoding, self._errors) if b is not None \
                    else None
            return a, b

        def send_signal(self, sig):
            kernel.note('signal', self.child.index, int(sig))
            if not self.child.done:
                self.child.done = True
                self.child.code = -int(sig)
                self.child.end = kernel.now

        def kill(self):
            self.send_signal(9)

        def terminate(self):
            self.send_signal(15)

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            self.wait()

        @property
        def universal_newlines(self):
            return self._text
    return SimPopen


class _Pipe(object):
    def __init__(self, proc, buf):
        self.proc = proc
        self.buf = buf

    def read(self, n=-1):
        self.proc.wait()
        data = bytes(self.buf)
        self.buf.clear()
        if self.proc._text:
            return data.decode(self.proc._encoding, self.proc._errors)
        return data

    def __iter__(self):
        data = self.read()
        return iter(io.StringIO(data) if isinstance(data, str)
                    else io.BytesIO(data))

    def readlines(self):
        return list(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass
