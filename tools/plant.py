#!/usr/bin/env python3
"""Plants bugs: from a specification file, makes /verif/seeded/<id>/ and confirms each one.

plant.py SPEC.py [ID...]   make and confirm (build, stable tests, demo with and without)
plant.py --run [ID...]     run the property's check against planted bugs already made
"""
import json, os, subprocess, sys, shutil, time, re
SEED = '/verif/seeded'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')

PRELUDE = r'''#![allow(unused_imports, dead_code)]
use svd_encoder as enc;
use svd_parser as par;
use svd_parser::svd::*;
use svd_parser::{Config, ValidateLevel};

fn device(extra: &str, ps: &str) -> String {
    format!("<device schemaVersion=\"1.1\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema-instance\" xs:noNamespaceSchemaLocation=\"CMSIS-SVD.xsd\"><name>D</name>{extra}<peripherals>{ps}</peripherals></device>")
}
fn per(inner: &str) -> String {
    device("", &format!("<peripheral><name>P</name><baseAddress>0x1000</baseAddress>{inner}</peripheral>"))
}
fn regs(inner: &str) -> String {
    per(&format!("<registers>{inner}</registers>"))
}
fn reg(inner: &str) -> String {
    regs(&format!("<register><name>R</name><addressOffset>0</addressOffset>{inner}</register>"))
}
fn fields(inner: &str) -> String {
    reg(&format!("<fields>{inner}</fields>"))
}
fn field(inner: &str) -> String {
    fields(&format!("<field><name>F</name>{inner}</field>"))
}
fn read(xml: &str) -> Device {
    par::parse(xml).unwrap()
}
fn read_at(xml: &str, lvl: ValidateLevel) -> Result<Device, String> {
    par::parse_with_config(xml, &Config::default().validate_level(lvl)).map_err(|e| format!("{e:?}"))
}
fn expand(xml: &str) -> Result<Device, String> {
    par::parse_with_config(xml, &Config::default().expand(true)).map_err(|e| format!("{e:?}"))
}
fn write(d: &Device) -> String {
    enc::encode(d).unwrap()
}
fn write_with(d: &Device, c: &enc::Config) -> String {
    enc::encode_with_config(d, c).unwrap()
}
fn reg0(d: &Device) -> &Register {
    d.peripherals[0].registers().next().unwrap()
}
fn field0(d: &Device) -> &Field {
    reg0(d).fields().next().unwrap()
}

fn main() {
'''
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as the property says; nonzero: it is not
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/demo.toml" "$tmp/Cargo.toml"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cd "$tmp"
CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$tmp/target} timeout 250 cargo run --offline -q
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
svd-rs = { path = "/repo/svd-rs", features = ["serde", "derive-from"] }
svd-parser = { path = "/repo/svd-parser", features = ["expand"] }
svd-encoder = { path = "/repo/svd-encoder" }
serde_json = "1"
serde_yaml = "0.8"
roxmltree = "0.20"

[workspace]
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, **kw))

def clean():
    sh('git -C /repo checkout -- .')

def assert_clean():
    assert sh('git -C /repo status --short').stdout.strip() == '', 'repo not clean'

def tests_pass():
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('bash /opt/vp/test.sh /tmp/pl/out.json')
    try:
        out = json.load(open('/tmp/pl/out.json'))
    except Exception as e:
        return 'no results'
    passed = set(out.get('passed', []))
    miss = base - passed
    return None if not miss else f'tests lost: {sorted(miss)[:4]}'

def lockfile():
    p = '/tmp/pl/lock'
    if not os.path.exists(p + '/Cargo.lock'):
        os.makedirs(p + '/src', exist_ok=True)
        open(p + '/src/main.rs', 'w').write('fn main(){}')
        open(p + '/Cargo.toml', 'w').write(TOML)
        r = sh(f'cd {p} && cargo generate-lockfile --offline')
        assert r.returncode == 0, r.stdout
    return p + '/Cargo.lock'

def demo(d):
    return sh(f'cd /repo && bash {d}/demo.sh', DEMO_TARGET_DIR='/tmp/pl/target')

def make(spec):
    i = spec['id']; d = f'{SEED}/{i}'
    assert_clean()
    try:
        for f, old, new in spec['edits']:
            s = open('/repo/' + f).read()
            if s.count(old) != 1:
                return f'edit of {f}: {s.count(old)} matches for {old[:50]!r}'
            open('/repo/' + f, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        cur = None; bad = []
        orig = 0
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = sh(f'git -C /repo show 6333cb1:{l[6:]}').stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
                if l[1:] in cur: orig += 1
                else: bad.append(l[1:])
        if bad or not orig:
            return f'not original lines: {bad[:2]} orig={orig}'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(PRELUDE + '\n'.join('    ' + l if l else l for l in spec['demo'].strip('\n').splitlines()) + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.toml', 'w').write(TOML)
        shutil.copy(lockfile(), d + '/demo.lock')
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: shutil.rmtree(d); return 'does not build: ' + r.stdout[-1500:]
        t = tests_pass()
        if t: shutil.rmtree(d); return t
        r = demo(d)
        if r.returncode == 0: shutil.rmtree(d); return 'demo passes with the bug'
        if 'error' in r.stdout and 'could not compile' in r.stdout: shutil.rmtree(d); return 'demo does not compile: ' + r.stdout[-1800:]
        msg = r.stdout.strip()[-300:]
    finally:
        clean()
    r = demo(d)
    if r.returncode:
        out = r.stdout[-1500:]; shutil.rmtree(d); return 'demo fails without the bug: ' + out
    return 'OK'

def run(i, tier='quick', checks=None):
    d = f'{SEED}/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    assert_clean()
    res = {}
    try:
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode: return {'apply': r.stdout}
        for c in checks or [prop]:
            t = time.time()
            r = sh(f'bash /verif/check.sh {c} {tier}', VERIF_SEED=ENV.get('VERIF_SEED', '1'), VERIF_TIER=tier)
            hit = f'VIOLATION property={c}' in r.stdout
            res[c] = ('caught' if r.returncode == 1 and hit else 'missed' if r.returncode == 0 else f'rc={r.returncode}', round(time.time() - t, 1))
            if r.returncode not in (0, 1): res[c + '.out'] = r.stdout[-800:]
    finally:
        clean()
        sh('git -C /verif checkout -- replays 2>/dev/null; git -C /verif clean -fdq replays')
    return res

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--run':
        allc = '--all' in a
        ids = [x for x in a[1:] if not x.startswith('--')] or sorted(os.listdir(SEED))
        props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')] if allc else None
        for i in ids:
            print(i, json.dumps(run(i, checks=props)), flush=True)
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        for s in ns['BUGS']:
            if a[1:] and s['id'] not in a[1:]: continue
            if not a[1:] and os.path.exists(f"{SEED}/{s['id']}/meta.json"): continue
            m = make(s)
            print(s['id'], m, flush=True)
            if m == 'OK' : print('   ', json.dumps(run(s['id'])), flush=True)
