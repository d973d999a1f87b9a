"""Builds the simulated include-what-you-use from /repo's working tree."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

from . import frame

LLVM = '/usr/lib/llvm-20'
CPP = os.path.join(frame.VERIF, 'cpp')
WRAP = ('open open64 read pread write close stat stat64 lstat fstat access '
        'lseek isatty mmap munmap posix_madvise readlink realpath getcwd '
        'statfs fstatfs opendir readdir closedir time getpid arc4random '
        'unlink rename remove mkdir symlink chdir malloc free calloc realloc '
        'posix_memalign aligned_alloc memalign mallinfo2 main').split()
CXX = LLVM + '/bin/clang++'
TOOL_FLAGS = ['-DIWYU_GIT_REV="sim"',
              '-DIWYU_RESOURCE_BINARY_PATH="%s/bin/clang-20"' % LLVM,
              '-DIWYU_RESOURCE_DIR=""', '-D__STDC_CONSTANT_MACROS',
              '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-fno-pie',
              '-O1', '-DNDEBUG', '-std=c++17', '-fno-exceptions',
              '-funwind-tables', '-w']
RT_FLAGS = ['-O1', '-std=c++17', '-w', '-fno-pie', '-fno-exceptions']
SKIP_LIBS = ('clangd', 'Tidy', 'Doc', 'Refactor', 'Handle', 'IncludeF',
             'ApplyRep', 'ChangeN', 'Move', 'ReorderF', 'Daemon', 'Query',
             'Interpreter')


def root():
    return os.environ.get('VERIF_BUILD') or os.path.join(frame.VERIF, 'build')


def binary():
    return os.path.join(root(), 'iwyu_sim')


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('%s failed:\n%s' % (
            ' '.join(cmd[:1] + cmd[-4:]),
            p.stdout.decode(errors='replace')[:4000]))


def ensure():
    """Builds whatever is out of date; returns the path of the binary."""
    out = root()
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _ensure(out)


def _ensure(out):
    overlay = os.path.join(out, 'overlay')
    _run([sys.executable, os.path.join(CPP, 'mk_overlay.py'), overlay])
    headers = hashlib.sha256(_read(os.path.join(CPP, 'mk_overlay.py')))
    for h in sorted(glob.glob(frame.REPO + '/*.h')):
        headers.update(os.path.basename(h).encode() + b'\0' + _read(h))
    jobs = []
    for src in sorted(glob.glob(frame.REPO + '/*.cc')):
        jobs.append((src, TOOL_FLAGS + ['-I' + overlay, '-I' + frame.REPO,
                                        '-I' + LLVM + '/include'], headers))
    jobs.append((CPP + '/shim.cc', TOOL_FLAGS + [
        '-I' + overlay, '-I' + frame.REPO, '-I' + LLVM + '/include'], headers))
    jobs.append((CPP + '/simrt.cc', RT_FLAGS, None))
    jobs.append((CPP + '/polly.cc', RT_FLAGS, None))

    def compile_one(job):
        src, flags, h = job
        key = h.copy() if h else hashlib.sha256()
        key.update(_read(src) + b'\0' + '\0'.join(flags).encode())
        key = key.hexdigest()
        obj = os.path.join(out, os.path.basename(src)[:-3] + '.o')
        stamp = obj + '.key'
        if not (os.path.exists(obj) and os.path.exists(stamp) and
                _read(stamp).decode() == key):
            if os.path.exists(stamp):
                os.unlink(stamp)
            _run([CXX] + flags + ['-c', src, '-o', obj])
            with open(stamp, 'w') as f:
                f.write(key)
        return obj, key
    # The slow ones first.
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        done = list(pool.map(compile_one, jobs))
    done.sort()
    objs = [o for o, _ in done]
    key = hashlib.sha256('\0'.join(k for _, k in done).encode()).hexdigest()
    stamp = binary() + '.key'
    if os.path.exists(binary()) and os.path.exists(stamp) and \
            _read(stamp).decode() == key:
        return binary()
    if os.path.exists(stamp):
        os.unlink(stamp)
    libs = [p for p in sorted(glob.glob(LLVM + '/lib/libclang[A-Z]*.a'))
            if not any(s in os.path.basename(p) for s in SKIP_LIBS)]
    _run([CXX, '-static', '-no-pie', '-fuse-ld=lld-18'] +
         ['-Wl,--wrap=' + w for w in WRAP] + objs +
         ['-o', binary(), '-L' + LLVM + '/lib', '-Wl,--gc-sections',
          '-Wl,--start-group'] + libs +
         ['-Wl,--end-group', '-Wl,--start-group'] +
         sorted(glob.glob(LLVM + '/lib/libLLVM*.a')) +
         ['-Wl,--end-group', '-lrt', '-ldl', '-lm', '-lz', '-lzstd', '-lxml2',
          '-llzma', '-licuuc', '-licudata', '-lpthread'])
    with open(stamp, 'w') as f:
        f.write(key)
    return binary()


if __name__ == '__main__':
    print(ensure())
