#!/opt/veriftools/pyvenv/bin/python3
"""C17, C18: evaluation/exp.py, property-based with Hypothesis.

  c17.py run C17|C18 --seed N --tier quick|thorough --out FILE --replays DIR
  c17.py replay FILE

The script is run as a whole (runpy, as __main__) for its command line, with a
recording stand-in or the real evaluation program as the executable, and its
functions are called for the statistics. matplotlib is not installed here and
is replaced by an inert module.
"""
import argparse
import bisect
import collections
import contextlib
import fractions
import hashlib
import importlib.util
import io
import json
import math
import os
import random
import re
import runpy
import shutil
import signal
import statistics
import sys
import tempfile
import time
import types
from unittest import mock

sys.dont_write_bytecode = True
sys.modules['matplotlib'] = mock.MagicMock()
sys.modules['matplotlib.pyplot'] = mock.MagicMock()

from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st  # noqa: E402

EXP = os.environ.get('EXP_PY', '/repo/evaluation/exp.py')
EVL = os.environ.get('HLLCHECK_EVL')
# The only directory written to; made below.
BASE = None


class Broken(AssertionError):
    pass


class Endless(KeyboardInterrupt):
    """Not an Exception: neither the script nor Hypothesis is to handle it."""


CASE_S = 90


@contextlib.contextmanager
def time_limit():
    """No case takes more than a second or two."""
    def stop(*_):
        raise Endless('took more than {} s'.format(CASE_S))
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(CASE_S)
    try:
        yield
    finally:
        signal.alarm(0)


def need(cond, message, *args):
    if not cond:
        raise Broken(message.format(*args))


def module():
    spec = importlib.util.spec_from_file_location('exp_under_test', EXP)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=BASE)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


RECORDER = '''#!/bin/sh
printf '%s\\0' "$@" >> "{0}.tmp"
printf '\\n\\0' >> "{0}.tmp"
mv "{0}.tmp" "{0}.$$"
exit {1}
'''


def recorder(path, log, code):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(RECORDER.format(log, code))
    os.chmod(path, 0o755)


def recorded(log):
    d, b = os.path.split(log)
    out = []
    for n in sorted(os.listdir(d)):
        if n.startswith(b + '.'):
            with open(os.path.join(d, n), 'rb') as f:
                parts = f.read().decode().split('\0')
            need(parts[-2:] == ['\n', ''], 'unreadable recording')
            out.append(parts[:-2])
    return out


def cli(argv, cwd):
    """Runs the script like `python exp.py ARGV` in directory cwd."""
    old, here = sys.argv, os.getcwd()
    sys.argv = [EXP] + argv
    os.chdir(cwd)
    try:
        with contextlib.redirect_stderr(io.StringIO()) as err:
            try:
                runpy.run_path(EXP, run_name='__main__')
            except SystemExit as e:
                need(e.code in (None, 0), 'exp.py {} exits with {}: {}', argv, e.code, err.getvalue()[-300:])
    finally:
        sys.argv = old
        os.chdir(here)


class Quiet(argparse.ArgumentParser):
    def error(self, message):
        raise Broken('the evaluation program is called with a command line it rejects: ' + message)


def evl_grammar():
    """The evaluation program's own command line (evaluation/src/main.rs)."""
    p = Quiet(prog='evl', allow_abbrev=False)
    p.add_argument('-j', '--jobs', default='1')
    sub = p.add_subparsers(dest='cmd', required=True, parser_class=Quiet)
    g = sub.add_parser('gen', allow_abbrev=False)
    for s, l in (('-s', '--size'), ('-c', '--count'), ('-r', '--runs'), ('-o', '--output')):
        g.add_argument(s, l, required=True)
    r = sub.add_parser('run', allow_abbrev=False)
    for s, l in (('-t', '--type'), ('-m', '--mode'), ('-p', '--precision'), ('-o', '--output')):
        r.add_argument(s, l, required=True)
    r.add_argument('-i', '--input', nargs='+', action='extend', default=[])
    r.add_argument('-r', '--runs')
    r.add_argument('-c', '--cardinalities')
    return p


GRAMMAR = evl_grammar()


# --- statistics ------------------------------------------------------------

def close(a, b, scale):
    return math.isfinite(a) and abs(a - b) <= 1e-9 * max(abs(b), scale) + 1e-15


def stats_case():
    def build(schedule, files, extra, no_newline):
        return {'schedule': schedule, 'files': files, 'extra': extra, 'no_newline': no_newline}

    def with_schedule(schedule):
        n = len(schedule)

        def file(kind):
            if kind == 'near':
                return st.integers(0, n).flatmap(lambda k: st.tuples(*[
                    st.integers(max(0, c - c // 20 - 1), c + c // 20 + 1) for c in schedule[:k]]).map(list))
            if kind == 'exact':
                return st.integers(0, n).map(lambda k: schedule[:k])
            if kind == 'full':
                return st.tuples(*[st.integers(0, 2 * c + 2) for c in schedule]).map(list)
            return st.integers(0, n).flatmap(
                lambda k: st.lists(st.integers(0, 10**12), min_size=k, max_size=k))
        one = st.sampled_from(['near', 'near', 'full', 'full', 'exact', 'wild']).flatmap(file)
        return st.builds(build, st.just(schedule), st.lists(one, max_size=9), st.booleans(), st.booleans())

    def bulk(t):
        """Too large to draw number by number."""
        rows, files, ragged, rnd = t
        schedule = list(range(1, rows + 1)) if rnd.random() < .5 else sorted(rnd.sample(range(1, 10**8), rows))
        lens = [rnd.randint(0, rows) if ragged else rows for _ in range(files)]
        return build(schedule, [[max(0, int(c * rnd.uniform(.9, 1.1))) for c in schedule[:k]] for k in lens], False, False)

    consecutive = st.integers(0, 25).map(lambda n: list(range(1, n + 1)))
    increasing = st.lists(st.integers(1, 10**9), max_size=12, unique=True).map(sorted)
    small = st.one_of(consecutive, increasing).flatmap(with_schedule)
    shape = st.sampled_from([(20, 150), (300, 12), (3000, 3)]).flatmap(
        lambda m: st.tuples(st.integers(1, m[0]), st.integers(1, m[1])))
    large = st.builds(lambda s, ragged, rnd: bulk((*s, ragged, rnd)), shape, st.booleans(),
                      st.integers(0, 2**32).map(random.Random))
    return st.integers(0, 39).flatmap(lambda n: large if n == 39 else small)


def stats_test(case, ctx):
    m = module()
    with scratch() as d:
        for i, f in enumerate(case['files']):
            text = '\n'.join('{} {}'.format(c, e) for c, e in zip(case['schedule'], f))
            if f and not case['no_newline']:
                text += '\n'
            with open(os.path.join(d, 'est-p14-hashes-s32-r{}.dat'.format(i)), 'w') as o:
                o.write(text)
        if case['extra']:
            # Not an estimate file.
            with open(os.path.join(d, 'notes.txt'), 'w') as o:
                o.write('see figure 3\n')
        got = m.calculate_statistics(d)
    need(len(got) == 4, 'statistics of {} columns', len(got))
    cards, means, medians, stdevs = (list(x) for x in got)
    rows = max([len(f) for f in case['files']], default=0)
    need(len(cards) == len(means) == len(medians) == len(stdevs) == rows,
         'rows: {}, {}, {}, {} instead of {}', len(cards), len(means), len(medians), len(stdevs), rows)
    for i in range(rows):
        c = case['schedule'][i]
        err = [fractions.Fraction(abs(f[i] - c), c) for f in case['files'] if len(f) > i]
        need(cards[i] == c, 'row {}: cardinality {} instead of {}', i, cards[i], c)
        big = float(max(err))
        mean, med = statistics.mean(err), statistics.median(err)
        var = statistics.pvariance(err)
        sd = math.sqrt(var)
        need(close(float(means[i]), float(mean), big), 'row {}: mean {} instead of {}', i, means[i], float(mean))
        need(close(float(medians[i]), float(med), big), 'row {}: median {} instead of {}', i, medians[i], float(med))
        need(abs(float(stdevs[i]) - sd) <= 1e-7 * big + 1e-15,
             'row {}: standard deviation {} instead of {}', i, stdevs[i], sd)
        ctx['rows'] += 1
    lens = {len(f) for f in case['files']}
    ctx['ragged' if len(lens) > 1 else 'even'] += 1
    ctx['{} files'.format(min(len(case['files']), 3)) + ('+' if len(case['files']) >= 3 else '')] += 1
    return rows > 0 and len(case['files']) >= 2


# --- cardinalities ---------------------------------------------------------

def cards_case():
    top = st.one_of(st.integers(1, 300), st.integers(1, 10**6), st.integers(1, 10**10),
                    st.integers(0, 9).map(lambda k: 10**k), st.integers(0, 33).map(lambda k: 2**k))
    ratio = st.one_of(st.none(), st.none(), st.just(1.007), st.just(2.0), st.just(1.5),
                      st.floats(1.002, 4.0, allow_nan=False))
    return st.fixed_dictionaries({'max': top, 'ratio': ratio, 'cli': st.booleans(), 'stale': st.booleans()})


def cards_test(case, ctx):
    top, ratio = case['max'], case['ratio']
    if case['cli'] or ratio is None and top % 2:
        ratio = 1.007
        with scratch() as d:
            o = os.path.join(d, 'out')
            os.mkdir(o)
            if case['stale']:
                with open(os.path.join(o, 'cardinalities.dat'), 'w') as f:
                    f.write('999999999999\n' * 5000)
            cli(['prepare', '-t', 'cardinalities', '-a', str(top), o], d)
            names = os.listdir(o)
            need(names == ['cardinalities.dat'], 'files written: {}', names)
            with open(os.path.join(o, names[0])) as f:
                text = f.read()
        lines = text.split('\n')
        if lines[-1] == '':
            lines.pop()
        # The evaluation program reads one integer per line, nothing else.
        need(all(x.isascii() and x.isdigit() for x in lines), 'line that is not an integer in {!r}', text[:80])
        data = [int(x) for x in lines]
        ctx['through the command line'] += 1
    else:
        m = module()
        data = list(m.generate_cardinalities(top) if ratio is None else m.generate_cardinalities(top, ratio))
        ratio = ratio or 1.007
        ctx['called'] += 1
    need(data and data[0] == 1, 'does not start from 1: {}', data[:3])
    need(all(isinstance(x, int) for x in data), 'not integers: {}', data[:3])
    need(all(a < b for a, b in zip(data, data[1:])), 'not strictly increasing')
    need(data[-1] >= top, 'ends at {}, before {}', data[-1], top)
    need(len(data) == 1 or data[-2] < top, '{} is already past {}', data[-2:-1], top)
    # Terms of 1, r, r^2, ..., rounded down; up to rounding errors.
    eps = 1e-11
    terms, k, x = [], 0, 1.0
    while True:
        terms.append(x)
        if x >= top * (1 + eps):
            break
        k += 1
        x = math.exp(k * math.log(ratio))
    for v in data:
        i = bisect.bisect_left(terms, v * (1 - eps))
        need(i < len(terms) and terms[i] < (v + 1) * (1 + eps), '{} is no term of the series of ratio {}', v, ratio)
    have = set(data)
    for x in terms:
        if x * (1 + eps) >= data[-1]:
            break
        lo, hi = math.floor(x * (1 - eps)), math.floor(x * (1 + eps))
        need(any(v in have for v in range(lo, hi + 1)), 'term {} of the series of ratio {} is left out', x, ratio)
    ctx['terms'] += len(data)
    return len(data) > 3


# --- command lines ---------------------------------------------------------

# For a shell the last ones would mean something.
NAME = st.one_of(st.text('abcdefghij0123456789_', min_size=1, max_size=8),
                 st.text('ab0-_ \'"$;&#,', min_size=1, max_size=6))


def command_case():
    opt = st.booleans()
    prep = st.fixed_dictionaries({
        'cmd': st.just('prepare'), 'size': st.sampled_from([None, '32', '64']),
        'count': st.one_of(st.none(), st.integers(0, 10**8)),
        'runs': st.one_of(st.none(), st.integers(0, 2000)),
    })
    run = st.fixed_dictionaries({
        'cmd': st.just('run'), 'type': st.sampled_from(['hll', 'hllp']),
        'mode': st.sampled_from(['hashes', 'cardinalities']),
        'precision': st.one_of(st.none(), st.integers(0, 30)),
        'runs': st.integers(0, 2000),
        'inputs': st.one_of(st.lists(NAME, min_size=1, max_size=8, unique=True),
                            st.integers(9, 300).map(lambda n: ['f{}'.format(i) for i in range(n)])),
        'others': st.lists(NAME, max_size=3, unique=True),
    })
    common = st.fixed_dictionaries({
        'jobs': st.one_of(st.none(), st.integers(1, 64)), 'exe': st.one_of(st.none(), NAME),
        'short': opt, 'eq': opt, 'rel': opt, 'in': NAME, 'out': NAME,
        # What the evaluation program exits with.
        'code': st.sampled_from([0, 0, 0, 0, 0, 1, 101]),
    })
    return st.tuples(st.one_of(prep, run), common).map(lambda t: {**t[0], **t[1]})


def command_test(case, ctx):
    with scratch() as d:
        log = os.path.join(d, 'log', 'call')
        os.mkdir(os.path.join(d, 'log'))
        exe = os.path.join(d, 'bin', case['exe']) if case['exe'] else os.path.join(d, 'target', 'release', 'evl')
        recorder(exe, log, case['code'])
        ind, outd = os.path.join(d, 'in-' + case['in']), os.path.join(d, 'out-' + case['out'])
        os.mkdir(ind)
        os.mkdir(outd)

        def opt(short, long, v):
            if case['eq'] and not case['short']:
                return ['{}={}'.format(long, v)]
            return [short if case['short'] else long, str(v)]

        def path(x):
            return os.path.relpath(x, d) if case['rel'] else x

        argv = []
        if case['exe']:
            argv += opt('-x', '--exe', exe)
        if case['jobs'] is not None:
            argv += opt('-j', '--jobs', case['jobs'])
        argv.append(case['cmd'])
        jobs = 1 if case['jobs'] is None else case['jobs']
        if case['cmd'] == 'prepare':
            argv += opt('-t', '--type', 'hashes')
            want = {'cmd': 'gen', 'size': case['size'] or '32',
                    'count': 100000 if case['count'] is None else case['count'],
                    'runs': 100 if case['runs'] is None else case['runs']}
            for s, n in (('-s', 'size'), ('-c', 'count'), ('-r', 'runs')):
                if case[n] is not None:
                    argv += opt(s, '--' + n, case[n])
            argv.append(path(outd))
        else:
            want = {'cmd': 'run', 'type': case['type'], 'mode': case['mode'],
                    'precision': 14 if case['precision'] is None else case['precision']}
            argv += opt('-t', '--type', case['type']) + opt('-m', '--mode', case['mode'])
            if case['precision'] is not None:
                argv += opt('-p', '--precision', case['precision'])
            if case['mode'] == 'hashes':
                want['input'] = []
                for n in case['inputs']:
                    f = os.path.join(ind, n + '.dat')
                    open(f, 'w').close()
                    want['input'].append(os.path.realpath(f))
                want['input'].sort()
                for n in case['others']:
                    open(os.path.join(ind, n + '.txt'), 'w').close()
                argv += opt('-i', '--input', path(ind))
            else:
                f = os.path.join(ind, 'cardinalities.dat')
                open(f, 'w').close()
                want['cardinalities'] = os.path.realpath(f)
                want['runs'] = case['runs']
                argv += opt('-r', '--runs', case['runs']) + opt('-c', '--cardinalities', path(f))
            argv += opt('-o', '--output', path(outd))
        if case['code']:
            try:
                cli(argv, d)
                failed = False
            except Exception:
                failed = True
            need(failed, 'exp.py {} ends as usual although the evaluation program fails', argv)
            ctx['failing'] += 1
        else:
            cli(argv, d)
        calls = recorded(log)
        need(len(calls) == 1, 'exp.py {} calls the evaluation program {} times', argv, len(calls))
        got = vars(GRAMMAR.parse_args(calls[0]))

        def real(p):
            return os.path.realpath(os.path.join(d, p))

        need(got.pop('jobs') == str(jobs), 'exp.py {}: jobs passed on in {}', argv, calls[0])
        need(real(got.pop('output')) == os.path.realpath(outd), 'exp.py {}: output passed on in {}', argv, calls[0])
        if 'input' in got:
            got['input'] = sorted(real(p) for p in got['input'])
        if got.get('cardinalities') is not None:
            got['cardinalities'] = real(got['cardinalities'])
        for k, v in want.items():
            g = got.pop(k)
            need(g == v if isinstance(v, list) else g == str(v),
                 'exp.py {}: {} should be {} but the call is {}', argv, k, v, calls[0])
        need(not any(got.values()), 'exp.py {}: not asked for: {} in {}', argv, got, calls[0])
        ctx[case['cmd'] + ' ' + case.get('mode', 'hashes')] += 1
    return True


# --- the whole pipeline ----------------------------------------------------

def pipeline_case():
    return st.fixed_dictionaries({
        'mode': st.sampled_from(['hashes', 'hashes', 'cardinalities']),
        'type': st.sampled_from(['hll', 'hllp']),
        'p': st.integers(8, 16), 'runs': st.integers(1, 5), 'count': st.integers(1, 150),
        'jobs': st.integers(1, 4),
    })


def pipeline_test(case, ctx):
    m = module()
    p, runs, n = case['p'], case['runs'], case['count']
    with scratch() as d:
        a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
        os.mkdir(a)
        os.mkdir(b)
        g = ['-x', EVL, '-j', str(case['jobs'])]
        r = g + ['run', '-t', case['type'], '-m', case['mode'], '-p', str(p), '-o', b]
        if case['mode'] == 'hashes':
            cli(g + ['prepare', '-t', 'hashes', '-s', '32' if case['type'] == 'hll' else '64',
                     '-c', str(n), '-r', str(runs), a], d)
            cli(r + ['-i', a], d)
            want = list(range(1, n + 1))
        else:
            cli(['prepare', '-t', 'cardinalities', '-a', str(n), a], d)
            f = os.path.join(a, 'cardinalities.dat')
            cli(r + ['-r', str(runs), '-c', f], d)
            with open(f) as o:
                want = [int(x) for x in o.read().split()]
        files = sorted(os.listdir(b))
        need(len(files) == runs, '{} estimate files for {} runs', len(files), runs)
        got = m.calculate_statistics(b)
        rows = []
        for n_ in files:
            with open(os.path.join(b, n_)) as o:
                rows.append([[int(x) for x in line.split()] for line in o])
    cards, means, medians, stdevs = got
    need(list(cards) == want, 'cardinalities {} instead of {}', list(cards)[:5], want[:5])
    for i, c in enumerate(want):
        err = [abs(x[i][1] - c) / c for x in rows]
        need(all(x[i][0] == c for x in rows), 'line {} of an estimate file is about {}', i, [x[i][0] for x in rows])
        need(close(float(means[i]), statistics.mean(err), max(err)), 'row {}: mean {}', i, means[i])
        need(close(float(medians[i]), statistics.median(err), max(err)), 'row {}: median {}', i, medians[i])
        need(abs(float(stdevs[i]) - statistics.pstdev(err)) <= 1e-7 * max(err), 'row {}: stdev {}', i, stdevs[i])
    ctx['pipeline ' + case['mode'] + ' ' + case['type']] += 1
    return True


# --- plots (C18) -------------------------------------------------------------

def curves(a):
    """(x, y) of each line that plot(*a) draws."""
    out, a = [], [v for v in a if not isinstance(v, str)]
    for x, y in zip(a[::2], a[1::2]):
        if len(y) and hasattr(y[0], '__len__'):
            out += [(x, [row[i] for row in y]) for i in range(len(y[0]))]
        else:
            out.append((x, y))
    return out


class Rec:
    """Stands for matplotlib.pyplot and everything it returns: any call on it is
    noted, with what it returned."""

    def __init__(self, log, name='plt'):
        self.__dict__['_log'], self.__dict__['_name'] = log, name
        # The lines of a call that draws more than one.
        self.__dict__['_parts'] = [self]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def call(*a, **k):
            r = Rec(self._log, n)
            if n == 'set_label':
                r = self
            if n in ('plot', 'semilogx') and len(curves(a)) > 1:
                r.__dict__['_parts'] = [Rec(self._log, n) for _ in curves(a)]
            # ax.set(xlim=..., title=...) for ax.set_xlim(...), ax.set_title(...)
            for w in list(k) if n == 'set' else ():
                self._log.append(('set_' + w, (k[w],), {}, r))
            self._log.append((n, a, k, r))
            return r
        return call

    def __setattr__(self, n, v):
        pass

    def __getitem__(self, i):
        # The only line of a call is that line.
        return self._parts[i] if self._name in ('plot', 'semilogx') else self

    def __len__(self):
        return len(self._parts)

    def __iter__(self):
        # fig, ax = subplots(); line, = plot().
        return iter([self] * 2 if self._name == 'subplots' else self._parts)


def plot_case():
    def build(kind, typ, mode, precision, top, short, files):
        return {'type': typ, 'mode': mode, 'precision': precision, 'max': top, 'short': short, 'files': files}
    errs = st.lists(st.lists(st.integers(-300, 300), min_size=1, max_size=12), min_size=1, max_size=7)
    return st.builds(build, st.none(), st.sampled_from(['hll', 'hllp']), st.sampled_from(['hashes', 'cardinalities']),
                     st.one_of(st.none(), st.integers(4, 18)), st.one_of(st.none(), st.integers(1, 10**9)),
                     st.booleans(), errs)


def plot_test(case, ctx):
    log = []
    plt = Rec(log)
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot = plt
    rows = max(len(f) for f in case['files'])
    schedule = [1000 * (i + 1) for i in range(rows)]
    old = {n: sys.modules[n] for n in ('matplotlib', 'matplotlib.pyplot')}
    with scratch() as d:
        for i, f in enumerate(case['files']):
            with open(os.path.join(d, 'est-p14-hashes-s32-r{}.dat'.format(i)), 'w') as o:
                # Errors of up to 30 %.
                o.write(''.join('{} {}\n'.format(c, c + c // 1000 * e) for c, e in zip(schedule, f)))
        argv = ['plot', '-t' if case['short'] else '--type', case['type'],
                '-m' if case['short'] else '--mode', case['mode']]
        if case['precision'] is not None:
            argv += ['-p' if case['short'] else '--precision', str(case['precision'])]
        if case['max'] is not None:
            argv += ['-a' if case['short'] else '--max-cardinality', str(case['max'])]
        sys.modules.update({'matplotlib': mpl, 'matplotlib.pyplot': plt})
        try:
            cli(argv + [d], d)
        finally:
            sys.modules.update(old)
    precision = 14 if case['precision'] is None else case['precision']
    top = 100000 if case['max'] is None else case['max']
    mean, med, sd = [], [], []
    for i in range(rows):
        e = [fractions.Fraction(abs(f[i]), 1000) for f in case['files'] if len(f) > i]
        mean.append(float(statistics.mean(e)))
        med.append(float(statistics.median(e)))
        sd.append(math.sqrt(statistics.pvariance(e)))

    def same(ys, want):
        ys = [float(y) for y in ys]
        return len(ys) == len(want) and all(abs(a - b) <= 1e-7 for a, b in zip(ys, want))

    lines, labels = [], {}
    for n, a, k, r in log:
        if n in ('plot', 'semilogx') and len(a) >= 2:
            label = k.get('label', '')
            for i, (x, y) in enumerate(curves(a)):
                need([int(v) for v in x] == schedule, 'a line over {} instead of the cardinalities', list(x)[:4])
                lines.append((r[i], y))
                labels[id(r[i])] = label if isinstance(label, str) else label[i]
    need(len(lines) == 2, '{} lines are drawn', len(lines))
    for n, a, k, r in log:
        if n == 'set_label' and a:
            labels[id(r)] = a[0]
        if n == 'legend':
            handles = k.get('handles', a[0] if len(a) > 1 else ())
            texts = k.get('labels', a[1] if len(a) > 1 else a[0] if a else ())
            for h, t in zip(handles or [r for r, _ in lines], texts):
                labels[id(h)] = t
    for what, want in (('mean', mean), ('median', med)):
        mine = [ys for r, ys in lines if what in str(labels.get(id(r), '')).lower()]
        need(len(mine) == 1, '{} lines are labelled {}', len(mine), what)
        need(same(mine[0], want), 'the {} line shows {} instead of {}', what, list(mine[0])[:4], want[:4])
    bands = [(a, k) for n, a, k, r in log if n == 'fill_between']
    need(len(bands) == 1, '{} bands are drawn', len(bands))
    a, k = bands[0]
    x, lo, hi = (list(a) + [k[n] for n in ('x', 'y1', 'y2')[len(a):]])[:3]
    need([int(v) for v in x] == schedule, 'a band over {}', list(x)[:4])
    below, above = [m - s for m, s in zip(mean, sd)], [m + s for m, s in zip(mean, sd)]
    need(same(lo, below) and same(hi, above) or same(lo, above) and same(hi, below),
         'the band is {} to {} instead of {} to {}', list(lo)[:4], list(hi)[:4], below[:4], above[:4])
    right, scale = None, 'linear'
    for n, a, k, r in log:
        if n in ('set_xlim', 'xlim'):
            if len(a) == 1 and isinstance(a[0], (tuple, list)):
                a = tuple(a[0])
            right = a[1] if len(a) > 1 else k.get('right', k.get('xmax', right))
        elif n in ('set_xscale', 'xscale'):
            scale = a[0] if a else k.get('value')
        elif n == 'semilogx':
            scale = 'log'
    need(right == top, 'the cardinality axis ends at {} instead of {}', right, top)
    need(scale == ('log' if case['mode'] == 'cardinalities' else 'linear'), '{} scale in {} mode', scale, case['mode'])
    title = ' '.join(str(a[0] if a else k.get('label', k.get('t'))) for n, a, k, r in log if n in ('title', 'set_title', 'suptitle'))
    words = re.findall(r'[\w+]+', title)
    need(str(precision) in words, 'title {!r} without the precision, {}', title, precision)
    need(('HyperLogLog++' if case['type'] == 'hllp' else 'HyperLogLog') in words,
         'title {!r} for {}', title, case['type'])
    need(any(n in ('show', 'savefig') for n, a, k, r in log), 'nothing is shown')
    ctx['{} {}'.format(case['type'], case['mode'])] += 1
    return rows > 1 and len(case['files']) > 1


PARTS = {
    'statistics': (stats_case, stats_test, 1200, 12),
    'cardinalities': (cards_case, cards_test, 400, 12),
    'commands': (command_case, command_test, 900, 12),
    'pipeline': (pipeline_case, pipeline_test, 60, 10),
    'plots': (plot_case, plot_test, 1500, 12),
}
OF = {'C17': ['statistics', 'cardinalities', 'commands', 'pipeline'], 'C18': ['plots']}


def run_part(name, seed_n, thorough, scale, ev):
    make, test, quick, mult = PARTS[name]
    n = max(5, int(quick * (mult if thorough else 1) * scale))
    last = {}

    @seed(seed_n * 1000 + sorted(PARTS).index(name))
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.target, Phase.shrink])
    @given(make())
    def go(case):
        ctx = collections.Counter()
        try:
            with time_limit():
                nontrivial = test(case, ctx)
        except (Exception, Endless) as e:
            last['case'] = case
            last['reason'] = str(e) if isinstance(e, (Broken, Endless)) else '{}: {}'.format(type(e).__name__, e)
            raise
        if 'case' in last:
            return
        ev['evaluations'] += 1
        for k, v in ctx.items():
            ev['classes'][name + ': ' + k] = ev['classes'].get(name + ': ' + k, 0) + v
        if nontrivial:
            js = json.dumps(case, sort_keys=True)
            ev['nontrivial'] += 1
            ev['distinct'].add(hashlib.sha1((name + js).encode()).hexdigest())
            if len(js) < 1200 and sum(s['part'] == name for s in ev['samples']) < 2:
                ev['samples'].append({'part': name, 'case': case})
    try:
        go()
    except (Exception, Endless) as e:  # the failing case has been noted
        if 'case' not in last:
            raise
        del e
        return {'part': name, 'case': last['case'], 'reason': last['reason']}
    return None


def main():
    global BASE
    a = argparse.ArgumentParser()
    a.add_argument('what', choices=['run', 'replay'])
    a.add_argument('file')
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--tier', default='quick')
    a.add_argument('--out')
    a.add_argument('--replays', default='replays')
    a.add_argument('--scale', type=float, default=1.0)
    a = a.parse_args()
    t = time.time()
    BASE = tempfile.mkdtemp(prefix='hllcheck-c17-')
    try:
        if a.what == 'replay':
            with open(a.file) as f:
                r = json.load(f)
            try:
                with time_limit():
                    PARTS[r['part']][1](r['case'], collections.Counter())
            except (Exception, Endless) as e:
                print('{} still fails: {}'.format(r['property'], e))
                return 1
            print('{} passes (1 case)'.format(r['property']))
            return 0
        ev = {'evaluations': 0, 'nontrivial': 0, 'distinct': set(), 'classes': {}, 'samples': []}
        fail = None
        for name in OF[a.file]:
            t1 = time.time()
            fail = run_part(name, a.seed, a.tier == 'thorough', a.scale, ev)
            print('  {} {}: {:.1f}s'.format(a.file, name, time.time() - t1), file=sys.stderr)
            if fail:
                break
        if fail:
            os.makedirs(a.replays, exist_ok=True)
            p = os.path.join(a.replays, '{}-{}-seed{}.json'.format(a.file, fail['part'], a.seed))
            with open(p, 'w') as f:
                json.dump({'property': a.file, 'variant': 'script', **fail}, f, indent=1)
            fail['replay'] = p
        if a.out:
            with open(a.out, 'w') as f:
                json.dump({'property': a.file, 'variant': 'script', 'evaluations': ev['evaluations'],
                           'nontrivial': ev['nontrivial'], 'distinct_nontrivial': len(ev['distinct']),
                           'classes': ev['classes'], 'sums': {}, 'marks': 0, 'samples': ev['samples'],
                           'wall_s': time.time() - t, 'failure': fail}, f, indent=1)
        if fail:
            print('{} {}: {}'.format(a.file, fail['part'], fail['reason']), file=sys.stderr)
            return 1
        return 0
    finally:
        shutil.rmtree(BASE, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
