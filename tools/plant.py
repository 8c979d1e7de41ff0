#!/usr/bin/env python3
"""Plants the bugs of tools/bugs.py: makes patch, demo and meta in /verif/seeded
and confirms each in a scratch copy of /repo (builds, tests pass, demo passes
without and fails with it).

  plant.py [ID...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import bugs  # noqa: E402

SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')

RUST = '''#!/bin/bash
# Runs main.rs against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hyperloglogplus = {{ path = "$repo"{features} }}
{deps}
[profile.dev]
opt-level = 1
END
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
cargo run --offline --quiet {run} > "$d/log" 2>&1
code=$?
grep -v warning "$d/log" | tail -5
exit $code
'''

PRELUDE = '''#![allow(dead_code, unused_imports)]
use hyperloglogplus::*;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hasher};

// The u64 value inserted is its own hash.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pass;
struct PassHasher(u64);
impl Hasher for PassHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.0 = (self.0 << 8) | *c as u64 } }
    fn write_u64(&mut self, i: u64) { self.0 = i }
}
impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher { PassHasher(0) }
}
type Plus = HyperLogLogPlus<u64, Pass>;
type Pf = HyperLogLogPF<u64, Pass>;
fn plus(p: u8) -> Plus { HyperLogLogPlus::new(p, Pass).unwrap() }
fn pf(p: u8) -> Pf { HyperLogLogPF::new(p, Pass).unwrap() }
// Hashes like random ones.
fn h(i: u64) -> u64 {
    let mut z = i.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x632be59bd9b4e019);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn close(a: f64, b: f64) { assert!((a - b).abs() <= 1e-6 * (1.0 + b.abs()), "{} instead of {}", a, b) }

'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)


def main():
    want = sys.argv[1:]
    for b in bugs.BUGS:
        if want and b['id'] not in want:
            continue
        d = os.path.join(SEEDED, b['id'])
        tmp = tempfile.mkdtemp(prefix='plant-')
        repo = os.path.join(tmp, 'repo')
        try:
            sh(['git', 'worktree', 'prune'], '/repo')
            shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('target'))
            for f, old, new in b['edits']:
                p = os.path.join(repo, f)
                with open(p) as o:
                    s = o.read()
                if s.count(old) < 1:
                    print(b['id'], 'TEXT NOT FOUND in', f, repr(old))
                    raise SystemExit(1)
                # The first occurrence: tests come last.
                s = s.replace(old, new, 1)
                with open(p, 'w') as o:
                    o.write(s)
            diff = sh(['git', 'diff'], repo).stdout
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'patch.diff'), 'w') as o:
                o.write(diff)
            if 'rust' in b:
                with open(os.path.join(d, 'main.rs'), 'w') as o:
                    o.write(PRELUDE + b['rust'])
                feats = b.get('features', '')
                deps = 'serde = { version = "1", features = ["derive"] }\n' + b.get('deps', '')
                t = RUST
                if 'miri' in b:
                    t = t.replace('cargo run', 'export XDG_CACHE_HOME="$d/cache"\ncargo +nightly miri run --target %s' % b['miri'])
                demo = t.format(features=feats, deps=deps, run=b.get('run', ''))
            else:
                demo = b['demo']
                for n, t in b.get('files', {}).items():
                    with open(os.path.join(d, n), 'w') as o:
                        o.write(t)
            with open(os.path.join(d, 'demo.sh'), 'w') as o:
                o.write(demo)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            with open(os.path.join(d, 'meta.json'), 'w') as o:
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, o, indent=1)
                o.write('\n')
            # Without: in /repo itself, which a demonstration leaves alone.
            r0 = sh(['bash', os.path.join(d, 'demo.sh')], '/repo')
            r1 = sh(['bash', os.path.join(d, 'demo.sh')], repo)
            # The tests, both feature sets, and the auxiliary crates.
            t = tempfile.mkdtemp(prefix='plant-t-')
            res = []
            for f in ('', '--features const-loop'):
                r = sh('CARGO_TARGET_DIR=%s cargo test --offline --no-fail-fast %s 2>&1' % (t, f), repo)
                res.append(r.returncode)
            r = sh('CARGO_TARGET_DIR=%s cargo build --offline 2>&1' % t, os.path.join(repo, 'evaluation'))
            res.append(r.returncode)
            shutil.rmtree(t, ignore_errors=True)
            ok = r0.returncode == 0 and r1.returncode != 0 and res == [0, 0, 0]
            print(b['id'], 'OK' if ok else 'NOT OK', 'demo clean', r0.returncode, 'planted', r1.returncode, 'tests', res, flush=True)
            if not ok:
                print('  clean:', r0.stdout[-600:], '\n  planted:', r1.stdout[-600:])
            else:
                print('   ', [l for l in r1.stdout.strip().splitlines() if l][-2:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
