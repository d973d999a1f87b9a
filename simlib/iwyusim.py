"""Client of the simulated include-what-you-use (cpp/simrt.cc).

An Analyzer owns one fork server.  run() describes a whole simulated world
(files, identities, memory layout, faults) and returns what the real analyser
did in it; the result is a pure function of the request and of the code.
"""
import collections
import errno
import hashlib
import os
import struct
import subprocess
import threading

PASSTHROUGH = ['/usr/lib/llvm-20/lib/clang', '/usr/include', '/usr/lib/gcc']
EXE = '/sim/bin/include-what-you-use'

# operation classes and actions of simrt.cc
OPEN, STAT, READ, DIR, WRITE, MALLOC, ANY = range(7)
CLASS_NAMES = ['open', 'stat', 'read', 'dir', 'write', 'malloc', 'any']
ERRNO, SHORT, KILL, TRUNC, VANISH = range(5)
ACTION_NAMES = ['errno', 'short', 'kill', 'trunc', 'vanish']

Result = collections.namedtuple(
    'Result', 'code output log dropped ops mallocs fired digest')


class Fault(collections.namedtuple('Fault', 'cls index count sub action arg')):
    def label(self):
        what = ACTION_NAMES[self.action]
        if self.action == ERRNO:
            what = errno.errorcode.get(self.arg, str(self.arg))
        return '%s:%s' % (CLASS_NAMES[self.cls], what)


def _s(b):
    if isinstance(b, str):
        b = os.fsencode(b)
    return struct.pack('<I', len(b)) + b + b'\0'


class World(object):
    """The simulated file system, working directory and identities."""
    def __init__(self, files=None, cwd='/sim/src', ident=0, passthrough=None):
        self.nodes = {}          # path -> (type, data, mode)
        self.cwd = cwd
        self.ident = ident       # seed of inode numbers and times
        self.passthrough = PASSTHROUGH if passthrough is None else passthrough
        self.mkdir('/sim/bin')
        self.nodes[EXE] = (0, b'\x7fELF', 0o755)
        self.nodes['/proc/self/exe'] = (2, EXE.encode(), 0o777)
        self.mkdir('/proc/self')
        self.mkdir(cwd)
        for path, data in (files or {}).items():
            self.write(path, data)

    def mkdir(self, path):
        while path not in ('', '/') and path not in self.nodes:
            self.nodes[path] = (1, b'', 0o755)
            path = os.path.dirname(path)

    def write(self, path, data, mode=0o644):
        if isinstance(data, str):
            data = data.encode()
        path = os.path.normpath(os.path.join(self.cwd, path))
        self.mkdir(os.path.dirname(path))
        self.nodes[path] = (0, data, mode)

    def symlink(self, path, target):
        path = os.path.normpath(os.path.join(self.cwd, path))
        self.mkdir(os.path.dirname(path))
        self.nodes[path] = (2, os.fsencode(target), 0o777)

    def encode(self):
        # Identities: a permutation of small inode numbers, and times, by seed.
        keys = sorted(self.nodes, key=os.fsencode)
        order = sorted(range(len(keys)), key=lambda i: hashlib.sha256(
            b'%d %d' % (self.ident, i)).digest())
        out = [struct.pack('<I', len(keys))]
        for i, path in enumerate(keys):
            typ, data, mode = self.nodes[path]
            out.append(_s(path))
            out.append(struct.pack('<IQqI', typ, 1000 + order[i],
                                   1500000000 + order[i] * 7919, mode))
            out.append(_s(data))
        return b''.join(out)


class Analyzer(object):
    def __init__(self, binary):
        self.proc = subprocess.Popen(
            [binary, '--sim-server'], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, env={'PATH': '/usr/bin:/bin'})
        self.lock = threading.Lock()

    def close(self):
        self.proc.stdin.close()
        self.proc.wait()
        self.proc.stdout.close()

    def _read(self, n):
        parts = []
        while n:
            b = self.proc.stdout.read(n)
            if not b:
                raise RuntimeError('simulated analyser server died (%s)'
                                   % self.proc.poll())
            parts.append(b)
            n -= len(b)
        return b''.join(parts)

    def run(self, args, world, seed=0, mode=0, io=0, faults=()):
        """Runs include-what-you-use with args in world.

        seed/mode choose the memory layout, io the chunking of reads and
        writes (bit 0 short reads, bit 1 EINTR, bit 2 short writes).
        """
        argv = [EXE] + list(args)
        req = [struct.pack('<I', len(argv))] + [_s(a) for a in argv]
        req.append(_s(world.cwd))
        req.append(struct.pack('<QII', seed & (2**64 - 1), mode, io))
        req.append(struct.pack('<I', len(world.passthrough)))
        req.extend(_s(p) for p in world.passthrough)
        req.append(world.encode())
        req.append(struct.pack('<I', len(faults)))
        for f in faults:
            req.append(struct.pack('<III', f.cls, f.index, f.count))
            req.append(_s(f.sub))
            req.append(struct.pack('<Iq', f.action, f.arg))
        req = b''.join(req)
        with self.lock:
            self.proc.stdin.write(struct.pack('<I', len(req)) + req)
            self.proc.stdin.flush()
            head = struct.unpack('<i6I', self._read(28))
            code, nout, nlog, dropped, ops, mallocs, nf = head
            fired = struct.unpack('<%dI' % nf, self._read(4 * nf))
            output = self._read(nout)
            log = self._read(nlog)
        digest = hashlib.sha256(struct.pack('<i', code) + output + b'\0' +
                                log).hexdigest()
        return Result(code, output, log, dropped, ops, mallocs,
                      fired[:len(faults)], digest)
