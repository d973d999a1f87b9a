"""A simulated operating system for the Python tools.

Kernel owns a file system in memory, a clock, child processes and the fault
plan.  install() replaces the operating-system interface of this interpreter
(os.*, open, time.*, subprocess, tempfile names) by it, so that the tools in
/repo run unchanged, as whole programs, against simulated devices only.

Nothing in here draws random numbers or reads a real clock: a run is a pure
function of the scenario it is given.
"""
import builtins
import errno
import fcntl
import hashlib
import io
import os
import posix
import random
import shutil
import stat as stat_module
import subprocess
import sys
import tempfile
import threading
import time
import traceback

ROOT = '/sim'
FD0 = 1 << 20
MAX_STEPS = 400000

_real = {}


class SimCrash(BaseException):
    """The simulated process was killed, or the machine lost power."""


class SimHang(BaseException):
    """The process made too many steps without finishing."""


class SimEscape(BaseException):
    """The program touched something outside the simulation."""


def oserror(err, path=None):
    if path is None:
        return OSError(err, os.strerror(err))
    return OSError(err, os.strerror(err), path)


class Inode(object):
    __slots__ = ('ino', 'kind', 'data', 'entries', 'mode', 'nlink', 'mtime')

    def __init__(self, ino, kind, mode):
        self.ino = ino
        self.kind = kind            # 'file' 'dir' 'link'
        self.data = bytearray()     # content, or target of a link
        self.entries = {} if kind == 'dir' else None
        self.mode = mode
        self.nlink = 1
        self.mtime = 0


class FileSystem(object):
    """Directories, files and links, with a journal for power failures.

    Metadata operations (create, link, unlink, rename, truncate, chmod) become
    durable in order; data written to a file becomes durable at its fsync and
    is otherwise lost, kept or torn as the crash decides.
    """
    def __init__(self):
        self.next_ino = 2
        self.inodes = {}
        self.root = self._new('dir', 0o755)
        self.journal = []          # (kind, args...)
        self.commit = 0            # metadata before this index is durable
        self.synced = {}           # ino -> journal index of its last fsync
        self.observers = []        # called with (op, path) after each change

    def _new(self, kind, mode):
        n = Inode(self.next_ino, kind, mode)
        self.next_ino += 1
        self.inodes[n.ino] = n
        return n

    # --- path resolution -------------------------------------------------
    def lookup(self, path, follow=True, depth=0):
        """Returns (parent inode, name, inode or None); raises OSError."""
        if depth > 40:
            raise oserror(errno.ELOOP, path)
        if not path:
            raise oserror(errno.ENOENT, path)
        parts = [p for p in path.split('/') if p and p != '.']
        stack = [(None, '', self.root)]
        for i, name in enumerate(parts):
            parent = stack[-1][2]
            if parent is None:
                raise oserror(errno.ENOENT, path)
            if parent.kind != 'dir':
                raise oserror(errno.ENOTDIR, path)
            if name == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            if len(name.encode('utf-8', 'surrogateescape')) > 255:
                raise oserror(errno.ENAMETOOLONG, path)
            ino = parent.entries.get(name)
            node = self.inodes[ino] if ino is not None else None
            last = i == len(parts) - 1
            if node is not None and node.kind == 'link' and (follow or not last):
                target = bytes(node.data).decode('utf-8', 'surrogateescape')
                if not target.startswith('/'):
                    base = '/' + '/'.join(s[1] for s in stack if s[1])
                    target = base + '/' + target
                rest = '/'.join(parts[i + 1:])
                return self.lookup(target + ('/' + rest if rest else ''),
                                   follow, depth + 1)
            stack.append((parent, name, node))
        parent, name, node = stack[-1]
        if node is not None and path.endswith('/') and node.kind != 'dir':
            raise oserror(errno.ENOTDIR, path)
        return parent, name, node

    def node(self, path, follow=True):
        n = self.lookup(path, follow)[2]
        if n is None:
            raise oserror(errno.ENOENT, path)
        return n

    # --- setting up and looking, from outside the simulation -----------------
    def makedirs(self, path):
        cur = self.root
        for name in path.split('/'):
            if not name:
                continue
            if name not in cur.entries:
                n = self._new('dir', 0o755)
                cur.entries[name] = n.ino
            cur = self.inodes[cur.entries[name]]
        return cur

    def put(self, path, data, mode=0o644):
        d = self.makedirs(os.path.dirname(path))
        n = self._new('file', mode)
        n.data[:] = data.encode() if isinstance(data, str) else data
        d.entries[os.path.basename(path)] = n.ino
        return n

    def put_link(self, path, target):
        d = self.makedirs(os.path.dirname(path))
        n = self._new('link', 0o777)
        n.data[:] = target.encode()
        d.entries[os.path.basename(path)] = n.ino

    def settle(self):
        """Everything there is now is durable."""
        self.journal = []
        self.commit = 0
        self.synced = {}
        self.base = self._snapshot()

    def _snapshot(self):
        return {i: (n.kind, bytes(n.data),
                    dict(n.entries) if n.entries is not None else None,
                    n.mode) for i, n in self.inodes.items()}

    def get(self, path):
        """Content of a file by path, or None."""
        try:
            n = self.lookup(path)[2]
        except OSError:
            return None
        return bytes(n.data) if n is not None and n.kind == 'file' else None

    def files(self, top=ROOT):
        out = {}

        def walk(path, n):
            if n.kind == 'file':
                out[path] = bytes(n.data)
            elif n.kind == 'link':
                out[path] = b'-> ' + bytes(n.data)
            else:
                for name in sorted(n.entries):
                    walk(path + '/' + name, self.inodes[n.entries[name]])
        try:
            walk(top, self.node(top))
        except OSError:
            pass
        return out

    # --- changes, journalled ---------------------------------------------------
    def log(self, *entry):
        self.journal.append(entry)

    def create(self, parent, name, kind, mode):
        n = self._new(kind, mode)
        self.log('create', n.ino, kind, mode, parent.ino, name)
        parent.entries[name] = n.ino
        return n

    def create_unnamed(self, mode):
        n = self._new('file', mode)
        n.nlink = 0
        return n

    def link(self, parent, name, n):
        self.log('link', parent.ino, name, n.ino)
        parent.entries[name] = n.ino
        n.nlink += 1

    def unlink(self, parent, name):
        self.log('unlink', parent.ino, name)
        n = self.inodes[parent.entries.pop(name)]
        n.nlink -= 1

    def rename(self, p1, n1, p2, n2):
        self.log('rename', p1.ino, n1, p2.ino, n2)
        ino = p1.entries.pop(n1)
        old = p2.entries.get(n2)
        if old is not None and old != ino:
            self.inodes[old].nlink -= 1
        p2.entries[n2] = ino

    def truncate(self, n, size):
        self.log('truncate', n.ino, size)
        if len(n.data) > size:
            del n.data[size:]
        else:
            n.data.extend(b'\0' * (size - len(n.data)))

    def write(self, n, offset, data):
        self.log('write', n.ino, offset, bytes(data))
        if offset > len(n.data):
            n.data.extend(b'\0' * (offset - len(n.data)))
        n.data[offset:offset + len(data)] = data

    def chmod(self, n, mode):
        self.log('chmod', n.ino, mode)
        n.mode = mode

    def fsync(self, n):
        self.commit = len(self.journal)
        self.synced[n.ino] = len(self.journal)

    # --- power failure -----------------------------------------------------------
    def after_power_loss(self, choose):
        """Returns the file system found after a power failure now.

        choose(label, n) picks a number below n for each decision.
        """
        j = self.journal
        meta = self.commit + choose('meta', len(j) - self.commit + 1)
        # Which unsynced writes made it, per file: a prefix, the last one torn.
        kept = {}
        writes = {}
        for k, e in enumerate(j):
            if e[0] == 'write' and k >= self.synced.get(e[1], 0):
                writes.setdefault(e[1], []).append(k)
        for ino in sorted(writes):
            ks = writes[ino]
            mode = choose('data', 4)
            if mode == 0:          # nothing
                n, torn = 0, 0
            elif mode == 1:        # everything
                n, torn = len(ks), 0
            else:
                n = choose('writes', len(ks))
                size = len(j[ks[n]][3])
                torn = choose('torn', size + 1)
            kept[ino] = (set(ks[:n]), ks[n] if torn else None, torn, mode == 3)
        fs = FileSystem()
        fs.next_ino = self.next_ino
        fs.inodes = {}
        for ino, (kind, data, entries, mode) in self.base.items():
            n = Inode(ino, kind, mode)
            n.data[:] = data
            if entries is not None:
                n.entries = dict(entries)
            fs.inodes[ino] = n
        fs.root = fs.inodes[self.root.ino]

        def node(ino, kind='file', mode=0o600):
            if ino not in fs.inodes:
                fs.inodes[ino] = Inode(ino, kind, mode)
            return fs.inodes[ino]
        for k, e in enumerate(j):
            op = e[0]
            if op == 'write':
                ino, off, data = e[1:]
                if k >= self.synced.get(ino, 0):
                    ks, tornk, torn, zeros = kept[ino]
                    if k == tornk:
                        data = data[:torn] + (b'\0' * (len(data) - torn)
                                              if zeros else b'')
                    elif k not in ks:
                        continue
                n = node(ino)
                if off > len(n.data):
                    n.data.extend(b'\0' * (off - len(n.data)))
                n.data[off:off + len(data)] = data
                continue
            if k >= meta:
                continue
            if op == 'create':
                ino, kind, mode, parent, name = e[1:]
                n = node(ino, kind, mode)
                n.kind, n.mode = kind, mode
                if kind == 'dir' and n.entries is None:
                    n.entries = {}
                fs.inodes[parent].entries[name] = ino
            elif op == 'link':
                node(e[3])
                fs.inodes[e[1]].entries[e[2]] = e[3]
            elif op == 'unlink':
                fs.inodes[e[1]].entries.pop(e[2], None)
            elif op == 'rename':
                ino = fs.inodes[e[1]].entries.pop(e[2])
                fs.inodes[e[3]].entries[e[4]] = ino
            elif op == 'truncate':
                n = node(e[1])
                if len(n.data) > e[2]:
                    del n.data[e[2]:]
                else:
                    n.data.extend(b'\0' * (e[2] - len(n.data)))
            elif op == 'chmod':
                node(e[1]).mode = e[2]
        fs.settle()
        return fs


class OpenFile(object):
    """An open file description: shared by duplicated descriptors."""
    __slots__ = ('node', 'offset', 'flags', 'path', 'refs')

    def __init__(self, node, flags, path):
        self.node = node
        self.offset = 0
        self.flags = flags
        self.path = path
        self.refs = 1


class SimRaw(io.RawIOBase):
    """What open() returns underneath its buffers."""
    def __init__(self, kernel, fd, mode, closefd=True, name=None):
        self.k = kernel
        self._fd = fd
        self._closefd = closefd
        self.name = name if name is not None else fd
        self.mode = mode
        acc = kernel.ofd(fd).flags & os.O_ACCMODE
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._w = acc in (os.O_WRONLY, os.O_RDWR)

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        data = self.k.sys_read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        parts = []
        while True:
            d = self.k.sys_read(self._fd, 65536)
            if not d:
                return b''.join(parts)
            parts.append(d)

    def write(self, b):
        return self.k.sys_write(self._fd, bytes(b))

    def seek(self, pos, whence=0):
        return self.k.sys_lseek(self._fd, pos, whence)

    def tell(self):
        return self.k.sys_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.k.sys_ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd:
                    self.k.sys_close(self._fd)


class Output(io.TextIOBase):
    """sys.stdout and sys.stderr of the simulated processes."""
    encoding = 'utf-8'
    errors = 'strict'
    newlines = None

    def __init__(self, kernel, which):
        self.k = kernel
        self.which = which

    def writable(self):
        return True

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s'
                            % type(s).__name__)
        self.k.stream_write(self.which, s.encode(self.encoding, self.errors))
        return len(s)

    def flush(self):
        pass

    def fileno(self):
        return 1 if self.which == 'stdout' else 2

    def isatty(self):
        return False

    @property
    def buffer(self):
        out = self

        class Raw(object):
            def write(self, b):
                out.k.stream_write(out.which, bytes(b))
                return len(b)

            def flush(self):
                pass
        return Raw()


class Fault(object):
    """One entry of the fault plan: when it hits, and what happens."""
    def __init__(self, spec):
        self.spec = spec
        self.op = spec['op']             # operation name, or 'any'
        self.skip = spec.get('n', 0)     # matching calls to let through
        self.count = spec.get('count', 1)
        self.path = spec.get('path')     # suffix the path must have
        self.pid = spec.get('pid')
        self.err = spec.get('err')       # errno name
        self.short = spec.get('short')   # bytes to transfer first
        self.action = spec.get('action') or ('err' if self.err else 'short')
        self.fired = 0

    def hits(self, op, path, pid):
        if self.pid is not None and pid != self.pid:
            return False
        if self.op != op and self.op != 'any':
            return False
        if self.op == 'any' and op in ('clock', 'stdout', 'poll'):
            return False
        if self.path and not (path or '').endswith(self.path):
            return False
        if self.skip > 0:
            self.skip -= 1
            return False
        if self.fired >= self.count:
            return False
        self.fired += 1
        return True


class Process(object):
    """A simulated instance of one of the Python tools."""
    def __init__(self, pid, argv, stdin, cwd):
        self.pid = pid
        self.argv = argv
        self.stdin = stdin
        self.cwd = cwd
        self.out = {'stdout': bytearray(), 'stderr': bytearray()}
        self.status = None
        self.crashed = False
        self.error = None          # traceback of an uncaught exception
        self.hung = False
        self.thread = None
        self.turn = None
        self.steps = 0
        self.wrote = []            # (step, op, path) of every change to files


class Kernel(object):
    def __init__(self, fs=None, faults=(), schedule=None):
        self.fs = fs or FileSystem()
        self.now = 1000.0
        self.faults = [Fault(f) for f in faults]
        self.procs = []
        self.current = None
        self.schedule = schedule       # pids to run at each switch point
        self.sched_pos = 0
        self.switches = []
        self.fds = {}
        self.next_fd = FD0
        self.trace = hashlib.sha256()
        self.steps = 0
        self.log_lines = []
        self.children = None           # tool_world installs a child model
        self.next_event = None         # time of the next event, for sleep
        self.cpus = 4
        self.max_steps = MAX_STEPS
        self.load = None               # function of time
        self.invariant = None          # called after each change to files
        self.on_step = None            # called before each system call
        self.violations = []
        self.umask = 0o022
        self.main_greenlet = None
        self.op_counts = {}

    # --- events --------------------------------------------------------------
    def note(self, *what):
        line = '%d %.6f %s' % (self.current.pid if self.current else 0,
                               self.now, ' '.join(str(w) for w in what))
        self.trace.update(line.encode('utf-8', 'backslashreplace') + b'\n')
        if len(self.log_lines) < 4000:
            self.log_lines.append(line)

    def enter(self, op, path=None):
        """Every system call starts here: crash, fault and switch point."""
        p = self.current
        if p is None:
            return None
        if p.crashed:
            raise SimCrash()
        self.steps += 1
        p.steps += 1
        if self.steps > self.max_steps:
            p.hung = True
            p.crashed = True
            raise SimHang()
        if len(self.procs) > 1:
            self.switch()
        if self.on_step:
            self.on_step(op, path)
        key = op
        self.op_counts[key] = self.op_counts.get(key, 0) + 1
        hit = None
        for f in self.faults:
            if f.hits(op, path, p.pid):
                hit = hit or f
        if hit is not None:
            self.note('FAULT', op, path, hit.action, hit.err)
            if hit.action == 'kill':
                p.crashed = True
                raise SimCrash()
            if hit.action == 'err':
                raise oserror(getattr(errno, hit.err), path)
        return hit

    def changed(self, op, path):
        p = self.current
        if p is not None:
            p.wrote.append((p.steps, op, path))
        if self.invariant:
            self.invariant(op, path)

    # --- scheduling of several processes ------------------------------------------
    def switch(self):
        """Lets the schedule choose who goes on."""
        me = self.current
        ready = [p for p in self.procs if p.status is None]
        if len(ready) < 2:
            return
        if self.sched_pos < len(self.schedule):
            pick = ready[self.schedule[self.sched_pos] % len(ready)]
            self.sched_pos += 1
        else:
            pick = me
        if pick is not me:
            self.switches.append((me.pid, pick.pid))
            self.current = pick
            pick.turn.release()
            me.turn.acquire()
            self.current = me
            if me.crashed:
                raise SimCrash()

    def path(self, p, dir_fd=None):
        """Absolute path in the simulation, or None if p is a real one."""
        if isinstance(p, int):
            return self.ofd(p).path
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = self.cwd() + '/' + p if p else ''
        return p

    def inside(self, p):
        if isinstance(p, int):
            return p >= FD0
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            return True
        return p == '/' or p == ROOT or p.startswith(ROOT + '/')

    def cwd(self):
        return self.current.cwd if self.current else ROOT

    def ofd(self, fd):
        try:
            return self.fds[fd]
        except KeyError:
            raise oserror(errno.EBADF)

    # --- system calls ------------------------------------------------------------
    def sys_open(self, path, flags, mode=0o777):
        p = self.path(path)
        write = flags & os.O_ACCMODE != os.O_RDONLY
        self.enter('open', p)
        tmpfile = getattr(os, 'O_TMPFILE', 0)
        if tmpfile and flags & tmpfile == tmpfile:
            self.fs.node(p)
            n = self.fs.create_unnamed(mode & ~self.umask)
            self.note('open-tmp', p)
            return self._fd(n, flags, p)
        follow = not flags & os.O_NOFOLLOW
        if flags & os.O_CREAT and flags & os.O_EXCL:
            follow = False
        parent, name, n = self.fs.lookup(p, follow)
        if n is None:
            if not flags & os.O_CREAT:
                raise oserror(errno.ENOENT, path)
            n = self.fs.create(parent, name, 'file', mode & ~self.umask)
            self.note('create', p)
            self.changed('create', p)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserror(errno.EEXIST, path)
            if n.kind == 'link':
                raise oserror(errno.ELOOP, path)
            if n.kind == 'dir':
                if write or flags & os.O_CREAT:
                    raise oserror(errno.EISDIR, path)
            elif flags & os.O_DIRECTORY:
                raise oserror(errno.ENOTDIR, path)
            if write and not n.mode & 0o200 or not write and not n.mode & 0o400:
                raise oserror(errno.EACCES, path)
            self.note('open', p, 'w' if write else 'r')
            if flags & os.O_TRUNC and write:
                self.fs.truncate(n, 0)
                self.note('truncate', p, 0)
                self.changed('truncate', p)
        return self._fd(n, flags, p)

    def _fd(self, n, flags, p):
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = OpenFile(n, flags, p)
        return fd

    def sys_close(self, fd):
        o = self.fds.pop(fd, None)
        if o is None:
            raise oserror(errno.EBADF)
        if self.current is None or self.current.crashed:
            return
        try:
            self.enter('close', o.path)
        except OSError:
            raise
        self.note('close', o.path)

    def sys_read(self, fd, n):
        o = self.ofd(fd)
        hit = self.enter('read', o.path)
        if o.node.kind == 'dir':
            raise oserror(errno.EISDIR)
        if o.flags & os.O_ACCMODE == os.O_WRONLY:
            raise oserror(errno.EBADF)
        if hit is not None and hit.action == 'short':
            n = max(1, min(n, hit.short))
        data = bytes(o.node.data[o.offset:o.offset + n])
        o.offset += len(data)
        self.note('read', o.path, len(data))
        return data

    def sys_write(self, fd, data):
        o = self.ofd(fd)
        if self.current is not None and self.current.crashed:
            return len(data)     # buffers dying with the process
        hit = self.enter('write', o.path)
        if o.flags & os.O_ACCMODE == os.O_RDONLY:
            raise oserror(errno.EBADF)
        if hit is not None and hit.action == 'short':
            data = data[:max(1, hit.short)]
        if o.flags & os.O_APPEND:
            o.offset = len(o.node.data)
        self.fs.write(o.node, o.offset, data)
        o.offset += len(data)
        self.note('write', o.path, len(data),
                  hashlib.sha256(data).hexdigest()[:8])
        self.changed('write', o.path)
        return len(data)

    def sys_lseek(self, fd, pos, whence):
        o = self.ofd(fd)
        if whence == 1:
            pos += o.offset
        elif whence == 2:
            pos += len(o.node.data)
        if pos < 0:
            raise oserror(errno.EINVAL)
        o.offset = pos
        return pos

    def sys_ftruncate(self, fd, size):
        o = self.ofd(fd)
        self.enter('truncate', o.path)
        self.fs.truncate(o.node, size)
        self.note('truncate', o.path, size)
        self.changed('truncate', o.path)

    def sys_fsync(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        o = self.ofd(fd)
        self.enter('fsync', o.path)
        self.fs.fsync(o.node)
        self.note('fsync', o.path)

    def sys_stat(self, path, follow=True):
        if isinstance(path, int):
            o = self.ofd(path)
            self.enter('stat', o.path)
            return self._stat(o.node)
        p = self.path(path)
        self.enter('stat', p)
        try:
            n = self.fs.node(p, follow)
        except OSError as why:
            why.filename = path
            raise
        return self._stat(n)

    def _stat(self, n):
        fmt = {'file': stat_module.S_IFREG, 'dir': stat_module.S_IFDIR,
               'link': stat_module.S_IFLNK}[n.kind]
        size = len(n.data)
        return os.stat_result((fmt | n.mode, n.ino, 77, max(1, n.nlink), 1000,
                               1000, size, 1000, 1000, 1000))

    def sys_rename(self, src, dst):
        a, b = self.path(src), self.path(dst)
        self.enter('rename', b)
        p1, n1, x = self.fs.lookup(a, False)
        if x is None:
            raise oserror(errno.ENOENT, src)
        p2, n2, y = self.fs.lookup(b, False)
        if y is not None and y.kind == 'dir' and x.kind != 'dir':
            raise oserror(errno.EISDIR, dst)
        self.fs.rename(p1, n1, p2, n2)
        self.note('rename', a, b)
        self.changed('rename', b)

    def sys_link(self, src, dst):
        a, b = self.path(src), self.path(dst)
        self.enter('link', b)
        x = self.fs.node(a)
        parent, name, y = self.fs.lookup(b, False)
        if y is not None:
            raise oserror(errno.EEXIST, dst)
        self.fs.link(parent, name, x)
        self.note('link', a, b)
        self.changed('link', b)

    def sys_symlink(self, src, dst):
        b = self.path(dst)
        self.enter('symlink', b)
        parent, name, y = self.fs.lookup(b, False)
        if y is not None:
            raise oserror(errno.EEXIST, dst)
        n = self.fs.create(parent, name, 'link', 0o777)
        n.data[:] = os.fsencode(src)
        self.changed('symlink', b)

    def sys_unlink(self, path):
        p = self.path(path)
        self.enter('unlink', p)
        parent, name, n = self.fs.lookup(p, False)
        if n is None:
            raise oserror(errno.ENOENT, path)
        if n.kind == 'dir':
            raise oserror(errno.EISDIR, path)
        self.fs.unlink(parent, name)
        self.note('unlink', p)
        self.changed('unlink', p)

    def sys_mkdir(self, path, mode=0o777):
        p = self.path(path)
        self.enter('mkdir', p)
        parent, name, n = self.fs.lookup(p, False)
        if n is not None:
            raise oserror(errno.EEXIST, path)
        self.fs.create(parent, name, 'dir', mode & ~self.umask)
        self.changed('mkdir', p)

    def sys_rmdir(self, path):
        p = self.path(path)
        self.enter('rmdir', p)
        parent, name, n = self.fs.lookup(p, False)
        if n is None:
            raise oserror(errno.ENOENT, path)
        if n.kind != 'dir':
            raise oserror(errno.ENOTDIR, path)
        if n.entries:
            raise oserror(errno.ENOTEMPTY, path)
        self.fs.unlink(parent, name)
        self.changed('rmdir', p)

    def sys_chmod(self, path, mode):
        p = self.path(path)
        self.enter('chmod', p)
        n = self.ofd(path).node if isinstance(path, int) else self.fs.node(p)
        self.fs.chmod(n, stat_module.S_IMODE(mode))
        self.note('chmod', p, oct(mode))
        self.changed('chmod', p)

    def sys_readlink(self, path):
        p = self.path(path)
        self.enter('readlink', p)
        n = self.fs.node(p, False)
        if n.kind != 'link':
            raise oserror(errno.EINVAL, path)
        return bytes(n.data).decode('utf-8', 'surrogateescape')

    def sys_access(self, path, mode):
        p = self.path(path)
        try:
            self.enter('stat', p)
            n = self.fs.node(p)
        except OSError:
            return False
        if mode & os.W_OK and not n.mode & 0o200:
            return False
        if mode & os.R_OK and not n.mode & 0o400:
            return False
        if mode & os.X_OK and not n.mode & 0o100:
            return False
        return True

    def sys_listdir(self, path):
        p = self.path(path)
        self.enter('listdir', p)
        n = self.fs.node(p)
        if n.kind != 'dir':
            raise oserror(errno.ENOTDIR, path)
        return list(n.entries)

    # --- clock, streams ----------------------------------------------------------
    def clock(self):
        if self.current is not None:
            self.enter('clock')
        self.now += 1e-7
        return self.now

    def sleep(self, dt):
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        self.enter('clock')
        self.now += max(dt, 1e-7)
        # A sleep may last longer than asked: here, until something happens.
        if self.next_event is not None:
            t = self.next_event()
            if t is not None and t > self.now:
                self.now = t

    def stream_write(self, which, data):
        p = self.current
        if p is None or p.crashed:
            return
        if which == 'stdout':
            self.enter('stdout')
        p.out[which].extend(data)
        self.trace.update(which.encode() + data)

    # --- running programs ---------------------------------------------------------
    def run(self, code, argv, stdin=b'', cwd=ROOT, filename='prog.py'):
        """Runs one program to its end; returns the Process."""
        p = Process(len(self.procs) + 1, argv, stdin, cwd)
        self.procs = [p]
        self.current = p
        self._main(p, code, filename)
        self.current = None
        return p

    def run_all(self, programs):
        """Runs [(code, argv, stdin, cwd, filename)] interleaved."""
        self.procs = []
        for code, argv, stdin, cwd, filename in programs:
            p = Process(len(self.procs) + 1, argv, stdin, cwd)
            p.turn = threading.Semaphore(0)
            self.procs.append(p)
        done = threading.Semaphore(0)

        def body(p, code, filename):
            p.turn.acquire()
            self.current = p
            try:
                self._main(p, code, filename)
            finally:
                ready = [q for q in self.procs if q.status is None]
                if ready:
                    if self.sched_pos < len(self.schedule):
                        pick = ready[self.schedule[self.sched_pos] % len(ready)]
                        self.sched_pos += 1
                    else:
                        pick = ready[0]
                    self.current = pick
                    pick.turn.release()
                else:
                    self.current = None
                    done.release()
        for p, (code, argv, stdin, cwd, filename) in zip(self.procs, programs):
            p.thread = threading.Thread(target=body, args=(p, code, filename),
                                        daemon=True)
            p.thread.start()
        first = self.procs[0]
        self.current = first
        first.turn.release()
        if not done.acquire(timeout=120):
            raise RuntimeError('simulated processes stuck')
        for p in self.procs:
            p.thread.join(10)
        return self.procs

    def _main(self, p, code, filename):
        g = {'__name__': '__main__', '__file__': filename,
             '__builtins__': builtins}
        status = 0
        try:
            exec(code, g)
        except SystemExit as e:
            c = e.code
            if c is None:
                status = 0
            elif isinstance(c, int):
                status = c & 0xff
            else:
                p.out['stderr'].extend((str(c) + '\n').encode())
                status = 1
        except SimCrash:
            status = 'killed'
        except SimHang:
            status = 'hung'
        except SimEscape as e:
            status = 'escaped'
            p.error = str(e)
        except BaseException as e:
            self.current = None      # formatting reads the real source
            p.error = ''.join(traceback.format_exception(e))
            self.current = p
            p.out['stderr'].extend(p.error.encode('utf-8', 'replace'))
            status = 130 if isinstance(e, KeyboardInterrupt) else 1
        if p.crashed and status not in ('hung', 'escaped'):
            status = 'killed'
        g.clear()
        p.status = status
        self.note('exit', status)


KERNEL = None


def _argv():
    return KERNEL.current.argv


class _Stdin(io.TextIOBase):
    pass


def _make_stdin(k):
    raw = io.BytesIO(k.current.stdin)
    return io.TextIOWrapper(raw, encoding='utf-8')


class _SysProxy(object):
    """sys.stdin of whichever process runs."""
    def __init__(self, k):
        self.k = k
        self.streams = {}

    def _s(self):
        p = self.k.current
        if p.pid not in self.streams:
            self.streams[p.pid] = _make_stdin(self.k)
        return self.streams[p.pid]

    def __iter__(self):
        return iter(self._s())

    def __next__(self):
        return next(self._s())

    def __getattr__(self, name):
        return getattr(self._s(), name)


class _Argv(list):
    """sys.argv of whichever process runs."""
    def __init__(self, k):
        super().__init__()
        self.k = k

    def __getitem__(self, i):
        return self.k.current.argv[i]

    def __len__(self):
        return len(self.k.current.argv)

    def __iter__(self):
        return iter(self.k.current.argv)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    k = KERNEL
    if k is None or k.current is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    if isinstance(file, int) and file < FD0:
        return _real['open'](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    if not k.inside(file):
        if set(mode) & set('wax+'):
            raise SimEscape('open %r for writing' % (file,))
        return _real['open'](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    plus = '+' in base
    base = base.replace('+', '')
    if base not in ('r', 'w', 'a', 'x'):
        raise ValueError('invalid mode: %r' % mode)
    flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC,
             'a': os.O_CREAT | os.O_APPEND,
             'x': os.O_CREAT | os.O_EXCL}[base]
    flags |= os.O_RDWR if plus else (os.O_RDONLY if base == 'r'
                                     else os.O_WRONLY)
    flags |= os.O_CLOEXEC
    if isinstance(file, int):
        fd = file
        k.ofd(fd)
    elif opener is not None:
        fd = opener(file, flags)
    else:
        fd = k.sys_open(file, flags, 0o666)
        if k.fds[fd].node.kind == 'dir':
            k.fds.pop(fd)
            raise oserror(errno.EISDIR, file)
    raw = SimRaw(k, fd, mode, closefd, file)
    if base == 'a':
        raw.seek(0, 2)
    if buffering == 0:
        if 'b' not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else 8192
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif base == 'r':
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                            line_buffering=buffering == 1)
    text.mode = mode
    return text


def _wrap(name, handler, escape):
    """os.<name>(path, ...): simulated inside, else real or an escape."""
    real = getattr(os, name)
    _real['os.' + name] = real

    def f(path='.', *a, **kw):
        k = KERNEL
        if k is None or k.current is None:
            return real(path, *a, **kw)
        if not k.inside(path):
            if escape:
                raise SimEscape('%s %r' % (name, path))
            return real(path, *a, **kw)
        return handler(k, path, *a, **kw)
    f.__name__ = name
    return f


def install():
    """Puts the simulated operating system under this interpreter."""
    if _real:
        return
    _real['open'] = builtins.open

    def h_stat(k, path, dir_fd=None, follow_symlinks=True):
        return k.sys_stat(path, follow_symlinks)

    def h_open(k, path, flags, mode=0o777, dir_fd=None):
        return k.sys_open(path, flags, mode)

    handlers = {
        'stat': (h_stat, False),
        'lstat': (lambda k, p, dir_fd=None: k.sys_stat(p, False), False),
        'open': (h_open, False),
        'unlink': (lambda k, p, dir_fd=None: k.sys_unlink(p), True),
        'remove': (lambda k, p, dir_fd=None: k.sys_unlink(p), True),
        'rename': (lambda k, p, q, **kw: k.sys_rename(p, q), True),
        'replace': (lambda k, p, q, **kw: k.sys_rename(p, q), True),
        'link': (lambda k, p, q, **kw: k.sys_link(p, q), True),
        'mkdir': (lambda k, p, mode=0o777, dir_fd=None: k.sys_mkdir(p, mode),
                  True),
        'rmdir': (lambda k, p, dir_fd=None: k.sys_rmdir(p), True),
        'chmod': (lambda k, p, mode, **kw: k.sys_chmod(p, mode), True),
        'chown': (lambda k, p, u, g, **kw: k.enter('chown', k.path(p)), True),
        'utime': (lambda k, p, *a, **kw: k.enter('utime', k.path(p)), True),
        'truncate': (lambda k, p, n: k.sys_ftruncate(
            k.sys_open(p, os.O_WRONLY), n), True),
        'readlink': (lambda k, p, dir_fd=None: k.sys_readlink(p), False),
        'access': (lambda k, p, mode, **kw: k.sys_access(p, mode), False),
        'listdir': (lambda k, p: k.sys_listdir(p), False),
        # descriptors
        'close': (lambda k, fd: k.sys_close(fd), False),
        'read': (lambda k, fd, n: k.sys_read(fd, n), False),
        'write': (lambda k, fd, b: k.sys_write(fd, bytes(b)), False),
        'fsync': (lambda k, fd: k.sys_fsync(fd), False),
        'fdatasync': (lambda k, fd: k.sys_fsync(fd), False),
        'fstat': (lambda k, fd: k.sys_stat(fd), False),
        'lseek': (lambda k, fd, p, w: k.sys_lseek(fd, p, w), False),
        'ftruncate': (lambda k, fd, n: k.sys_ftruncate(fd, n), False),
        'fchmod': (lambda k, fd, mode: k.sys_chmod(fd, mode), False),
        'fchown': (lambda k, fd, u, g: None, False),
        'isatty': (lambda k, fd: False, False),
    }
    for name, (handler, escape) in handlers.items():
        setattr(os, name, _wrap(name, handler, escape))
    # copystat and friends ask whether these support options
    for name in ('stat', 'chmod', 'utime', 'chown', 'link'):
        for s in (os.supports_follow_symlinks, os.supports_fd,
                  os.supports_dir_fd):
            if _real.get('os.' + name) in s:
                s.add(getattr(os, name))

    def h_symlink(src, dst, *a, **kw):
        k = KERNEL
        if k is None or k.current is None:
            return posix.symlink(src, dst, *a, **kw)
        if not k.inside(dst):
            raise SimEscape('symlink %r' % (dst,))
        return k.sys_symlink(src, dst)
    os.symlink = h_symlink
    real_getcwd = os.getcwd
    os.getcwd = lambda: KERNEL.current.cwd if KERNEL and KERNEL.current \
        else real_getcwd()
    real_load = os.getloadavg

    def getloadavg():
        k = KERNEL
        if k is None or k.current is None:
            return real_load()
        k.enter('load')
        v = k.load(k.now)
        k.note('load', v)
        return (v, v, v)
    os.getloadavg = getloadavg
    real_cpu = os.cpu_count
    os.cpu_count = lambda: KERNEL.cpus if KERNEL and KERNEL.current \
        else real_cpu()
    real_getpid = os.getpid
    os.getpid = lambda: 4000 + KERNEL.current.pid if KERNEL and KERNEL.current \
        else real_getpid()
    real_urandom = os.urandom
    os.urandom = lambda n: b'\x5a' * n if KERNEL and KERNEL.current \
        else real_urandom(n)
    for name in ('system', 'fork', 'forkpty', 'posix_spawn', 'posix_spawnp',
                 'execv', 'execve', 'kill', 'killpg', 'popen'):
        if hasattr(os, name):
            real = getattr(os, name)

            def f(*a, _real=real, _name=name, **kw):
                if KERNEL is not None and KERNEL.current is not None:
                    raise SimEscape(_name)
                return _real(*a, **kw)
            setattr(os, name, f)
    builtins.open = sim_open
    io.open = sim_open
    for name in ('time', 'monotonic', 'perf_counter'):
        real = getattr(time, name)
        _real['time.' + name] = real
        setattr(time, name, lambda _r=real: KERNEL.clock()
                if KERNEL and KERNEL.current else _r())
    real_sleep = time.sleep
    time.sleep = lambda dt: KERNEL.sleep(dt) if KERNEL and KERNEL.current \
        else real_sleep(dt)
    shutil._USE_CP_SENDFILE = False
    _real['Popen'] = subprocess.Popen
    sys.unraisablehook = lambda *a: None


class _Names(object):
    """Deterministic replacement of tempfile's random names."""
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'tmp%06d' % self.n


class Session(object):
    """with Session(kernel): programs run against kernel."""
    def __init__(self, kernel, env=None, popen=None):
        self.k = kernel
        self.env = env or {}
        self.popen = popen

    def __enter__(self):
        global KERNEL
        install()
        self.saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv,
                      tempfile.tempdir, tempfile._name_sequence,
                      subprocess.Popen, dict(os.environ))
        KERNEL = self.k
        sys.stdin = _SysProxy(self.k)
        sys.stdout = Output(self.k, 'stdout')
        sys.stderr = Output(self.k, 'stderr')
        sys.argv = _Argv(self.k)
        tempfile.tempdir = ROOT + '/tmp'
        tempfile._name_sequence = _Names()
        self.k.fs.makedirs(ROOT + '/tmp')
        if self.popen is not None:
            subprocess.Popen = self.popen
        else:
            def no_children(*a, **kw):
                raise SimEscape('Popen')
            subprocess.Popen = no_children
        os.environ.clear()
        os.environ.update({'PATH': ROOT + '/bin', 'HOME': ROOT + '/home',
                           'LANG': 'C.UTF-8'})
        os.environ.update(self.env)
        random.seed(1)
        return self

    def __exit__(self, *exc):
        global KERNEL
        KERNEL = None
        (sys.stdin, sys.stdout, sys.stderr, sys.argv, tempfile.tempdir,
         tempfile._name_sequence, subprocess.Popen, env) = self.saved
        os.environ.clear()
        os.environ.update(env)
        return False
