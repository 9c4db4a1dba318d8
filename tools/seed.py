#!/usr/bin/env python3
"""seed.py ID PROP NEEDS BREAKS [--demo HARNESS PARAMS-or-@skeleton INPUTS]: turn the uncommitted change in /repo into
/verif/seeded/ID, after confirming it builds, passes the tests, and that the demonstration tells it apart. Undoes the change.
Development tool."""
import sys, os, subprocess, json, shutil, glob
V='/verif'; R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh('git -C /repo checkout -- .')
id, prop, needs, breaks = sys.argv[1:5]
rest = sys.argv[5:]
diff = sh('git -C /repo diff').stdout
if not diff.strip(): sys.exit('no change in /repo')
try:
    b = sh('bash /opt/vp/build.sh'); 
    if b.returncode: print(b.stdout[-1500:], b.stderr[-1500:]); sys.exit('does not build')
    t = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
    if '0 failed' not in t.stdout.splitlines()[-1]: print(t.stdout[-1500:]); sys.exit('tests fail')
    for f in glob.glob(V+'/evidence/replay/%s-*.json' % prop): os.unlink(f)
    c = sh('python3 check.py %s quick' % prop, cwd=V)
    print(c.stdout[-900:], 'exit', c.returncode)
    if rest and rest[0]=='--demo':
        import importlib; sys.path.insert(0, V); import check
        if rest[2].startswith('@'):
            alg, mask, text = rest[2][1:].split(':',2)
            params = [int(alg), int(mask)] + check.words(text)
        else: params = [int(x) for x in rest[2].split(',') if x]
        h, inputs, group = rest[1], rest[3].split(), rest[4] if len(rest)>4 else 'g_pub'
    elif c.returncode == 1:
        fs=sorted(glob.glob(V+'/evidence/replay/%s-*.json' % prop))
        e=json.load(open(fs[0])); h, params, inputs, group = e['harness'], e['params'], e['inputs'], e['group']
        print(e['message'], e['native'], e.get('case'))
    else: sys.exit('NOT CAUGHT and no demonstration given')
    d=V+'/seeded/'+id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    shutil.copytree(V+'/harness/src', d+'/src'); shutil.copy(V+'/harness/Cargo.toml', d); shutil.copy(V+'/harness/Cargo.lock', d)
    open(d+'/inputs.txt','w').write(' '.join(map(str,inputs))+'\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs one concrete case on the real code and checks the result: exit 0 if it is right.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
cp -r "$D/src" "$D/Cargo.toml" "$D/Cargo.lock" "$T/"
cd "$T"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="--cfg regalloc2_verif"
cargo build -q --offline --profile replay --bin native --features %s --target-dir "$T/target" 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 60 "$T/target/replay/native" %s %s "$D/inputs.txt" v
''' % (group, h, ','.join(map(str,params))))
    os.chmod(d+'/demo.sh',0o755)
    x=sh('bash %s/demo.sh' % d, cwd=R); print('demo with patch:', x.returncode, x.stdout.strip().splitlines()[-1:])
    undo()
    y=sh('bash %s/demo.sh' % d, cwd=R); print('demo without:', y.returncode, y.stdout.strip().splitlines()[-1:])
    if x.returncode in (0,3) or y.returncode != 0: sys.exit('DEMO DOES NOT DISCRIMINATE')
    print('SEEDED', id, 'caught' if c.returncode==1 else 'MISSED')
finally: undo()
