#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py ID [--tier quick|thorough] [--seed N] [--scale X]
  check.py --setup            builds everything once (warms the build cache)
  check.py --replay FILE      runs one recorded case again

Exit 0: held on everything explored; 1: violation, with a line
"VIOLATION property=ID replay=PATH"; anything else: the check itself failed.
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, 'target')
OUT = os.path.join(TARGET, 'out')
REPLAYS = os.path.join(HERE, 'replays')
EVIDENCE = os.path.join(HERE, 'evidence')
REPO = '/repo'
IDS = ['C%02d' % i for i in range(1, 27)]

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUST_BACKTRACE='0', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
    ENV.pop(k, None)

ASSUME = [
    'The cases are a sample: no violation found is not a proof.',
    'rustc, the standard library, proptest/Hypothesis and the serde formats behave as documented.',
]

RULE = {
    'C01': 'Generated histories of insertions (values of several generators, repeated, shuffled, with estimates in '
           'between); non-trivial: at least two distinct hashes and the history differs from inserting each once in order.',
    'C02': 'Generated trees of merges among up to several sketches with insertions, estimates and clones between, plus '
           'typed values with keyed hashers; non-trivial: some successful merge has two non-empty operands.',
    'C03': 'Generated pairs of sketches of equal or different precision in all representations, merged in the middle of '
           'histories; non-trivial: the source or the destination is non-empty.',
    'C04': 'Generated hash sets (every register and rank, ranges, levels) into HyperLogLogPF, compared with a reference '
           'model of the published estimator; non-trivial: at least one value.',
    'C05': 'Generated hash sets that drive HyperLogLogPlus dense, compared with a reference model with its own copy of '
           'the published tables; non-trivial: the dense representation is reached.',
    'C06': 'Generated hash sets below, at and above the sparse limit, compared with a reference model of the list and '
           'with sketches that were dense before; non-trivial: at least two distinct codes / a value.',
    'C07': 'Generated histories with serialization round trips (6 encodings) in the middle; non-trivial: the sketch is '
           'not empty when it is serialized.',
    'C08': 'A case is a sketch type, precision and seed: a set of sketches of independent uniform hashes, or of '
           'SipHash of consecutive integers, estimated at a grid of cardinalities; every case is non-trivial.',
    'C09': 'All 256 precisions for both types, exhaustively, then generated value sets at accepted ones; non-trivial: '
           'the precision is accepted.',
    'C10': 'Generated operation sequences with adversarial hashes (extreme ranks, saturated registers, all boundaries); '
           'non-trivial: the sketch is not empty.',
    'C11': 'Generated values of many types, through every entry point, with keyed hashers of several qualities, and '
           'generated irrelevant hash bits; non-trivial: at least one value.',
    'C12': 'Generated histories, cloned in the middle, with different histories on the two afterwards; non-trivial: the '
           'sketch is not empty when it is cloned.',
    'C13': 'Generated histories measured by a counting allocator; non-trivial: something is inserted.',
    'C14': 'Generated programs on four sketches run in a default and a const-loop process; non-trivial: some estimate is '
           'not zero.',
    'C15': 'Generated programs on four sketches run in a std and two no_std processes (alloc, alloc + const-loop); '
           'non-trivial: some estimate is not zero.',
    'C16': 'Generated hash files, precisions and job counts given to the evaluation program; non-trivial: at least one '
           'estimate is compared.',
    'C17': 'Generated estimate files, schedules, command lines, and runs of the whole pipeline; non-trivial: at least two '
           'files and a row / more than three terms / any command line.',
    'C18': 'Generated estimate files and parameters, plotted with a recording stand-in for matplotlib; non-trivial: at '
           'least two files and two cardinalities.',
    'C19': 'Generated programs during which one sketch is serialized in one build of the crate and deserialized in '
           'another, repeatedly; non-trivial: the sketch is not empty when it travels.',
    'C20': 'Generated work for two to four threads at a time, on sketches of their own and shared ones; non-trivial: some '
           'estimate is not zero.',
    'C21': 'Generated streams of insertions, merges and estimates with the allocator counting all memory asked for; '
           'non-trivial: at least 100 operations.',
    'C22': 'Generated histories, written by a frozen copy of the crate and read by the current one, with generated '
           'histories afterwards; non-trivial: the sketch is not empty when it is written.',
    'C23': 'Generated histories with failures of the values, hashers, builders, writers and readers in between; '
           'non-trivial: something fails while the sketch is not empty.',
    'C24': 'Generated programs on four sketches, and sketches carried back and forth as JSON, bincode and CBOR, between '
           'this machine, a 32-bit one (WebAssembly) and a big-endian one (s390x, interpreted by Miri), with and without '
           'std; non-trivial: some estimate is not zero / the sketch is not empty when it travels.',
    'C25': 'Generated programs on four sketches run with the crate compiled with debug assertions and overflow checks and '
           'without; non-trivial: some estimate is not zero.',
    'C26': 'Generated streams of insertions, merges and estimates, timed (processor time of the thread, the least of up to '
           'five measurements, in units of work measured on the same machine); non-trivial: at least 100 operations.',
}


# What it means that a build fails, where that is a violation.
BUILD_FAILS = {
    'C15': 'The std build of the crate compiles, the no_std build does not',
    'C19': 'The no_std build of the crate compiles, but its sketches cannot be serialized and deserialized',
    'C20': 'Sketches cannot be sent to or shared between threads, says the compiler',
    'C24': 'The crate compiles for this machine, but not for another platform',
}


class Trouble(Exception):
    """The check itself cannot be carried out."""


def run(cmd, cwd, timeout=1700, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', timeout=timeout)


def content():
    """A digest of /repo's sources: cargo goes by times, which a checkout or a copy may set back."""
    h = hashlib.sha256()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ('.git', 'target'))
        for n in sorted(files):
            p = os.path.join(d, n)
            if n.endswith(('.rs', '.toml')) and os.path.isfile(p):
                with open(p, 'rb') as f:
                    h.update(p.encode() + b'\0' + f.read() + b'\0')
    return h.hexdigest()


def refresh(t, clean):
    """Lets `clean` act if the target directory `t` holds a build of other sources."""
    p, now = t + '.sources', content()
    if os.path.isdir(t):
        try:
            with open(p) as f:
                old = f.read()
        except OSError:
            old = ''
        if old != now:
            clean()
    os.makedirs(os.path.dirname(t), exist_ok=True)
    with open(p, 'w') as f:
        f.write(now)


def cargo(cwd, args, what):
    t = args[args.index('--target-dir') + 1]

    def clean():
        own = ['-p', 'evl'] if what == 'evl' else []
        if run(['cargo', 'clean', '--offline', '--release', '--target-dir', t, '-p', 'hyperloglogplus'] + own, cwd).returncode != 0:
            shutil.rmtree(t)

    refresh(t, clean)
    r = run(['cargo', 'build', '--release', '--offline'] + args, cwd)
    if r.returncode != 0:
        return r.stdout
    return None


def must(log, what):
    if log is not None:
        raise Trouble('%s does not build:\n%s' % (what, log[-6000:]))


def harness(check, variant):
    """The harness with one check (or none: the server), for one build of the crate."""
    log, exe = try_harness(check, variant)
    must(log, 'the harness (%s build of the crate)' % variant)
    return exe


def try_harness(check, variant):
    feats = {'default': 'std', 'const-loop': 'cl', 'plain': 'plain'}[variant]
    if check:
        feats += ',' + check.lower()
    d = os.path.join(HERE, 'harness')
    args = ['--target-dir', os.path.join(TARGET, 'harness'), '--no-default-features', '--features', feats]
    if variant == 'plain':
        # As users compile it: nothing that is left out then may matter.
        for k in ('debug-assertions', 'overflow-checks'):
            args += ['--config', 'profile.release.package.hyperloglogplus.%s=false' % k]
    log = cargo(d, args, variant)
    if log is not None:
        return log, None
    os.makedirs(OUT, exist_ok=True)
    exe = os.path.join(OUT, 'hllcheck-%s-%s' % (check or 'serve', variant))
    shutil.copy2(os.path.join(TARGET, 'harness', 'release', 'hllcheck'), exe)
    return None, exe


def nostd(json_too=False):
    """(programs, None) or (None, build log)."""
    d = os.path.join(HERE, 'nostd')
    out = []
    for name, feats in (('alloc', []), ('alloc-const-loop', ['const-loop'])):
        if json_too:
            name, feats = name + '-json', feats + ['json']
        feats = ['--features', ','.join(feats)] if feats else []
        log = cargo(d, ['--target-dir', os.path.join(TARGET, 'nostd')] + feats, 'no_std')
        if log is not None:
            return None, '%s build:\n%s' % (name, log)
        os.makedirs(OUT, exist_ok=True)
        exe = os.path.join(OUT, 'nostd-' + name)
        shutil.copy2(os.path.join(TARGET, 'nostd', 'release', 'nostd-server'), exe)
        out.append(exe)
    return out, None


# Miri looks for nothing here but the behaviour on another machine.
MIRIFLAGS = '-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check ' \
    '-Zmiri-disable-data-race-detector -Zmiri-disable-weak-memory-emulation ' \
    '-Zmiri-deterministic-floats -Zmiri-disable-isolation'
WASM, S390X = 'wasm32-unknown-unknown', 's390x-unknown-linux-gnu'


def wasm_sysroot():
    """The standard library for wasm32, from the sources of the toolchain."""
    tool = run(['rustc', '+nightly', '--print', 'sysroot'], HERE).stdout.strip()
    lib = os.path.join(tool, 'lib', 'rustlib', 'src', 'rust', 'library')
    root, work = os.path.join(TARGET, 'wasm-sysroot'), os.path.join(TARGET, 'wasm-std')
    done = os.path.join(root, 'done')
    stamp = run(['rustc', '+nightly', '-vV'], HERE).stdout
    if os.path.exists(done) and open(done).read() == stamp:
        return root
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cfg = os.path.join(work, 'config.toml')
    with open(cfg, 'w') as f:
        f.write('[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n' % os.path.join(lib, 'vendor'))
    r = run(['cargo', '+nightly', 'build', '--release', '--locked', '--offline', '--config', cfg, '--manifest-path',
             os.path.join(lib, 'std', 'Cargo.toml'), '--no-default-features', '--target', WASM, '--target-dir', work],
            work, env=dict(ENV, RUSTC_BOOTSTRAP='1', RUSTFLAGS='-Zforce-unstable-if-unmarked -Cembed-bitcode=no'))
    if r.returncode != 0:
        raise Trouble('the standard library for wasm32 does not build:\n' + r.stdout[-3000:])
    to = os.path.join(root, 'lib', 'rustlib', WASM, 'lib')
    os.makedirs(to)
    for d, _, files in os.walk(os.path.join(work, WASM)):
        for n in files:
            if n.endswith(('.rlib', '.rmeta')):
                shutil.copy2(os.path.join(d, n), to)
    shutil.rmtree(work, ignore_errors=True)
    with open(done, 'w') as f:
        f.write(stamp)
    return root


def platforms():
    """Sets the commands of the other platforms; returns a build log if the crate does not compile for one."""
    d = os.path.join(HERE, 'plat')
    ENV['XDG_CACHE_HOME'] = os.path.join(TARGET, 'cache')
    with concurrent.futures.ThreadPoolExecutor() as ex:
        miri = ex.submit(run, ['cargo', '+nightly', 'miri', 'setup', '--target', S390X], HERE)
        sysroot = ex.submit(wasm_sysroot).result()
        if miri.result().returncode != 0:
            raise Trouble('Miri cannot be set up:\n' + miri.result().stdout[-3000:])

    def crate(log, what):
        if 'could not compile `hyperloglogplus`' in log:
            return '%s:\n%s' % (what, log)
        raise Trouble('plat (%s) does not build:\n%s' % (what, log[-6000:]))
    os.makedirs(OUT, exist_ok=True)
    for name, feat in (('', 'std'), ('_NOSTD', 'nostd')):
        args = ['--release', '--offline', '--manifest-path', os.path.join(d, 'Cargo.toml'), '--no-default-features',
                '--features', feat]
        t, tm = os.path.join(TARGET, 'plat'), os.path.join(TARGET, 'miri-' + feat)
        for x in (t, tm):
            refresh(x, lambda: shutil.rmtree(x))
        r = run(['cargo', '+nightly', 'build', '--lib', '--target', WASM, '--target-dir', t] + args, d,
                env=dict(ENV, RUSTFLAGS='--sysroot ' + sysroot))
        if r.returncode != 0:
            return crate(r.stdout, '%s, %s' % (WASM, feat))
        w = os.path.join(OUT, 'plat-%s.wasm' % feat)
        shutil.copy2(os.path.join(t, WASM, 'release', 'plat.wasm'), w)
        ENV['HLLCHECK_WASM' + name] = '\t'.join(['node', os.path.join(d, 'serve.mjs'), w])
        ENV['MIRIFLAGS'] = MIRIFLAGS
        cmd = ['cargo', '+nightly', 'miri', 'run', '-q', '--bin', 'plat', '--target', S390X, '--target-dir',
               tm] + args
        # Nothing to do: ends at once.
        r = run(cmd, d)
        if r.returncode != 0:
            return crate(r.stdout, '%s, %s' % (S390X, feat))
        ENV['HLLCHECK_S390X' + name] = '\t'.join(cmd)
    return None


def evl():
    src = os.path.join(REPO, 'evaluation')
    # The lock file is not tracked. Without one, work from the pinned copy.
    lock = os.path.join(src, 'Cargo.lock')
    if not os.path.exists(lock):
        shutil.copy2(os.path.join(HERE, 'evalcheck', 'evaluation.lock'), lock)
    must(cargo(src, ['--target-dir', os.path.join(TARGET, 'evl')], 'evl'), 'the evaluation program')
    return os.path.join(TARGET, 'evl', 'release', 'evl')


def failed_build(pid, log, where, args):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, pid + '-build.log')
    with open(p, 'w') as f:
        f.write('%s (cd %s/%s && cargo build --release --offline %s).\n\n%s' % (BUILD_FAILS[pid], HERE, where, args, log))
    return p


def build(pid, thorough):
    """[(command prefix, variant)] to run, or ('violation', path)."""
    if pid in ('C17', 'C18'):
        if pid == 'C17':
            ENV['HLLCHECK_EVL'] = evl()
        return [(['/opt/veriftools/pyvenv/bin/python3', os.path.join(HERE, 'evalcheck', 'c17.py')], 'script')]
    if pid in ('C14', 'C19'):
        ENV['HLLCHECK_PEER'] = harness(None, 'const-loop')
    if pid == 'C25':
        ENV['HLLCHECK_PEER'] = harness(None, 'plain')
    if pid == 'C16':
        ENV['HLLCHECK_EVL'] = evl()
    if pid == 'C20':
        log, _ = try_harness(pid, 'default')
        if log is not None and re.search('cannot be (sent|shared) between threads', log):
            # The harness without this check does compile.
            harness(None, 'default')
            return [('violation', failed_build(pid, log, 'harness', '--no-default-features --features std,c20'))]
    out = [([harness(pid, 'default')], 'default')]
    if pid == 'C24':
        log = platforms()
        if log is not None:
            return [('violation', failed_build(pid, log, 'plat', ''))]
    if pid in ('C15', 'C19'):
        exes, log = nostd(pid == 'C19')
        if exes is None and pid == 'C19' and nostd()[0] is None:
            # Not about serialization.
            exes = []
        if exes is None:
            return [('violation', failed_build(pid, log, 'nostd', '--features json' if pid == 'C19' else ''))]
        ENV['HLLCHECK_NOSTD'] = ','.join(exes)
    if pid <= 'C13' or 'C20' <= pid <= 'C23':
        out.append(([harness(pid, 'plain')], 'plain'))
        if thorough:
            out.append(([harness(pid, 'const-loop')], 'const-loop'))
    return out


def evidence(pid, tier, seed, parts, wall, violations, extra=None):
    def add(key):
        tot = {}
        for p in parts:
            for k, v in p[key].items():
                tot[k] = tot.get(k, 0) + v
        return dict(sorted(tot.items()))
    cov = {
        'evaluations': sum(p['evaluations'] for p in parts),
        'nontrivial': sum(p['nontrivial'] for p in parts),
        # Builds may explore the same cases: the largest, not the sum.
        'distinct_nontrivial': max([p['distinct_nontrivial'] for p in parts], default=0),
        'rule': RULE[pid],
        'samples': (parts[0]['samples'] if parts else [])[:8],
        'classes': add('classes'),
        'totals': add('sums'),
        'builds': [p['variant'] for p in parts],
    }
    cov.update(extra or {})
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': ASSUME, 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(EVIDENCE, pid + '.json'))


# Far above what any case needs.
RUN_GB, CASE_GB, CASE_S = 16, 4, 30
RUN_S = 600


def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def crashed(cmd, cur, pid, variant, seed):
    """The process died (memory exhausted, stack overflow) or did not end: which
    of the cases it was at does that alone, too?"""
    for w in range(8):
        try:
            with open('%s.%d' % (cur, w)) as f:
                n = int(f.readline() or '0', 16)
                if not n:
                    continue
                c = json.loads(f.read(n))
        except (OSError, ValueError):
            continue
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, '%s-%s-%s-seed%d-crash.json' % (pid, variant, c['part'], seed))
        with open(p, 'w') as f:
            json.dump({'property': pid, 'variant': variant, 'part': c['part'], 'reason': 'the process dies',
                       'case': c['case']}, f, indent=1)
        try:
            r = subprocess.run(cmd + ['replay', p], cwd=HERE, env=ENV, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=limit(CASE_GB),
                               timeout=CASE_S)
            if r.returncode == 0:
                os.remove(p)
                continue
            how = 'the process ends with %d: %s' % (r.returncode, r.stdout.strip()[-300:])
        except subprocess.TimeoutExpired:
            how = 'no end after %d s' % CASE_S
        return {'part': c['part'], 'reason': how, 'replay': p}
    return None


def check(pid, tier, seed, scale):
    t = time.time()
    thorough = tier == 'thorough'
    todo = build(pid, thorough)
    if todo[0][0] == 'violation':
        evidence(pid, tier, seed, [], time.time() - t, 1, {'explanation': BUILD_FAILS[pid], 'samples': ['build']})
        print('%s: %s' % (pid, BUILD_FAILS[pid]))
        print('VIOLATION property=%s replay=%s' % (pid, todo[0][1]))
        return 1
    print('%s: built in %.1fs' % (pid, time.time() - t), flush=True)
    parts, failures = [], []
    for cmd, variant in todo:
        o = os.path.join(TARGET, 'out', '%s-%s.json' % (pid, variant))
        os.makedirs(os.path.dirname(o), exist_ok=True)
        if os.path.exists(o):
            os.remove(o)
        # Other cases, and in the quick tier fewer.
        plain = variant == 'plain'
        args = ['run', pid, '--seed', str(seed + (500000 if plain else 0)), '--tier', tier,
                '--scale', str(scale * (.4 if plain and tier == 'quick' else 1)), '--out', o, '--replays', REPLAYS]
        cur = os.path.join(TARGET, 'out', '%s-%s-current' % (pid, variant))
        if variant != 'script':
            args += ['--current', cur]
        died = None
        try:
            r = subprocess.run(cmd + args, cwd=HERE, env=ENV, stdout=sys.stdout, stderr=subprocess.STDOUT,
                               preexec_fn=limit(RUN_GB), timeout=RUN_S if tier == 'quick' else None)
            if r.returncode not in (0, 1) or not os.path.exists(o):
                died = 'ended with %d' % r.returncode
        except subprocess.TimeoutExpired:
            died = 'took more than %d s' % RUN_S
        if died:
            f = crashed(cmd, cur, pid, variant, seed)
            if not f:
                raise Trouble('%s (%s) %s' % (pid, variant, died))
            failures.append(f)
            break
        with open(o) as f:
            p = json.load(f)
        parts.append(p)
        if p['failure']:
            failures.append(p['failure'])
            break
    new = failures
    evidence(pid, tier, seed, parts, time.time() - t, len(new))
    for f in new:
        print('%s %s: %s' % (pid, f['part'], f['reason']))
        print('VIOLATION property=%s replay=%s' % (pid, f['replay']))
    if not new:
        n = sum(p['evaluations'] for p in parts)
        print('%s: held on %d cases, %.1fs' % (pid, n, time.time() - t))
    return 1 if new else 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    pid = v['property']
    for cmd, variant in build(pid, v['variant'] == 'const-loop'):
        if variant == v['variant']:
            return subprocess.run(cmd + ['replay', os.path.abspath(path)], cwd=HERE, env=ENV).returncode
    return 2


def main():
    a = argparse.ArgumentParser()
    a.add_argument('id', nargs='?', choices=IDS)
    a.add_argument('--setup', action='store_true')
    a.add_argument('--replay')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a.add_argument('--scale', type=float, default=1.0)
    a = a.parse_args()
    try:
        if a.setup:
            harness('C14', 'default')
            harness(None, 'const-loop')
            for j in (False, True):
                _, log = nostd(j)
                if log:
                    print(log)
            evl()
            return 0
        if a.replay:
            return replay(a.replay)
        if not a.id:
            print(__doc__)
            return 2
        return check(a.id, a.tier, a.seed, a.scale)
    except Trouble as e:
        print('ERROR: %s' % e)
        return 3


if __name__ == '__main__':
    sys.exit(main())
