"""iwyu_tool: every selected command analysed once, reported once, whole."""
from simlib import frame, tool

ID = 'C01'
LEVEL = 'exploration'
COUNTS = {'quick': 4000, 'thorough': 60000}
RULE = ('A scenario is a generated compilation database (0-14 commands), '
        'command line, and for each child process when it writes which piece '
        'of its output and when it exits. Non-trivial: at least two children '
        'were alive at the same time or at least two ran in sequence.')
STATES = 'distinct sequences of child starts and exits'
REAL = ['iwyu_tool.py, whole program, run from its command line']
STUB = ['include-what-you-use (scripted children)', 'file system', 'clock',
        'process table', 'load average']
ASSUMPTIONS = ['children write to the file or pipe they are given and exit; '
               'the kernel delivers their bytes in order']
PROBES = ['concurrent', 'finished-out-of-order', 'selected-subset', 'big',
          'wrapper', 'cl', 'load-limited', 'many-waves']


def generate(rng, index, tier):
    return tool.gen_common(rng, {'load': 0.2})


def execute(sc):
    out = frame.Outcome()
    run = tool.Run(sc)
    run.outcome(out)
    if tool.check_sane(run, out):
        tool.check_exactly_once(run, out)
        if not out.violations:
            tool.check_blocks(run, out)
    probes(run, out)
    return out


def probes(run, out):
    sc = run.sc
    kids = run.children.started
    out.nontrivial = len(kids) > 1
    if run.children.max_running > 1:
        out.probes['concurrent'] += 1
    ends = [c.index for h, c in run.children.history if h == 'exit']
    starts = [c.index for h, c in run.children.history if h == 'start']
    if ends != starts:
        out.probes['finished-out-of-order'] += 1
    if len(run.want) < len(sc['entries']):
        out.probes['selected-subset'] += 1
    if any(sc['entries'][i]['big'] for i, _, _ in run.want):
        out.probes['big'] += 1
    if any(sc['entries'][i]['argv'][0] == 'ccache' for i, _, _ in run.want):
        out.probes['wrapper'] += 1
    if any('--driver-mode=cl' in a for _, a, _ in run.want):
        out.probes['cl'] += 1
    if sc['load'] is not None and run.jobs > 1:
        out.probes['load-limited'] += 1
    if len(kids) > 2 * run.jobs > 2:
        out.probes['many-waves'] += 1
    out.sample = {'argv': run.p.argv, 'commands': len(run.want),
                  'history': run.interleaving()[:200], 'status': run.status}


shrink = tool.shrink
