"""Shared by the properties of the analyser: environments and the corpus.

An environment is everything that is not the analysed program: memory layout,
file identities and times, directory order, unrelated files, and the chunking
and interruption of system calls.
"""
import contextlib
import glob
import hashlib
import io
import os
import sys
import unittest

from simlib import build, frame, iwyusim as S

_analyser = None


def analyser():
    global _analyser
    if _analyser is None:
        _analyser = S.Analyzer(build.binary())
    return _analyser


def close():
    global _analyser
    if _analyser is not None:
        _analyser.close()
        _analyser = None


# --- environments --------------------------------------------------------------

def gen_env(rng, mode=None):
    env = {'mode': rng.randrange(4) if mode is None else mode,
           'seed': rng.randrange(1 << 30), 'ident': rng.randrange(1 << 30),
           'io': rng.choice([0, 0, 1, 2, 4, 3, 5, 7]),
           'noise': rng.choice([0, 0, 1, 5])}
    return env


PLAIN = {'mode': 2, 'seed': 1, 'ident': 0, 'io': 0, 'noise': 0}


def run(args, files, cwd, env, faults=(), links=()):
    w = S.World(files, cwd=cwd, ident=env['ident'])
    for path, target in links:
        w.symlink(path, target)
    dirs = sorted(set(os.path.dirname(p) for p in w.nodes
                      if p.startswith(cwd)))
    for n in range(env['noise']):
        d = dirs[(env['seed'] + n) % len(dirs)]
        w.write('%s/.noise%d-%d.h~' % (d, n, env['seed'] % 977),
                '#error "not part of the program"\n')
    return analyser().run(args, w, seed=env['seed'], mode=env['mode'],
                          io=env['io'], faults=faults)


def note_env(out, env):
    out.probes['layout-%d' % env['mode']] += 1
    for bit, name in ((1, 'short-read'), (2, 'eintr'), (4, 'short-write')):
        if env['io'] & bit:
            out.faults[name] += 1
    if env['noise']:
        out.probes['unrelated-files'] += 1


# --- corpus -----------------------------------------------------------------

SKIP = {'tests/cxx/ms_inline_asm.cc'}     # asks the binary about its targets
_corpus = None


class Corpus(object):
    def __init__(self):
        old = os.getcwd()
        os.chdir(frame.REPO)
        try:
            self.tests = sorted(
                glob.glob('tests/cxx/**/*.cc', recursive=True) +
                glob.glob('tests/c/**/*.c', recursive=True) +
                glob.glob('tests/driver/*.c'))
            self.tests = [t for t in self.tests if t not in SKIP]
            self.files = {}
            for d in ('tests/cxx', 'tests/c', 'tests/driver'):
                for root, _, fs in os.walk(d):
                    for f in fs:
                        p = os.path.join(root, f)
                        with open(p, 'rb') as fd:
                            self.files['%s/%s' % (frame.REPO, p)] = fd.read()
        finally:
            os.chdir(old)
        sys.path.insert(0, frame.REPO)
        import iwyu_test_util
        self.util = iwyu_test_util
        self.util._GetIwyuPath = lambda: 'iwyu'
        self.util._GetExtraArgs = lambda: []

    def world(self, test):
        """The part of the corpus a test can see: its own directory tree."""
        return self.files

    def attempt(self, test, runner):
        """Runs one documented example.  runner(args) -> Result.
        Returns None, or what is not as documented."""
        base, ext = os.path.splitext(test)
        d, b = os.path.split(base)
        old = os.getcwd()
        os.chdir(frame.REPO)

        def command(cmd):
            r = runner(cmd[1:])
            return r.code, r.output.decode(errors='replace').splitlines(True)
        self.util._GetCommandOutput = command
        try:
            every = (glob.glob('%s-*' % base) +
                     glob.glob('%s/*/%s-*' % (d, b)) +
                     glob.glob('%s.h' % base) +
                     glob.glob('%s/*/%s.h' % (d, b)))
            files = sorted(f for f in every if not f.endswith(ext)) + [test]
            with contextlib.redirect_stdout(io.StringIO()):
                self.util.TestIwyuOnRelativeFile(test, files)
        except unittest.SkipTest:
            return None
        except AssertionError as e:
            if self.util.IsTestExpectedToFail(test):
                return None
            return str(e)
        except Exception as e:
            return repr(e)
        finally:
            os.chdir(old)
        return None


def corpus():
    global _corpus
    if _corpus is None:
        _corpus = Corpus()
    return _corpus


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]
