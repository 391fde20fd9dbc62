"""plants a bug: plant.py <spec.py> -- checks it in a scratch copy of /repo and writes seeded/<id>/

spec.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (the demonstration, exit 0 / nonzero)
and optionally CHECKS = [...] (the checks to try, default [PROP]) and FEATURES."""
import json
import os
import shutil
import subprocess
import sys
import time

W = os.environ.get('PLANT_W', '/tmp/w')
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
DEMO = '''#!/bin/bash
# builds the demonstration against the crate in the current directory, in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "${dir:?}"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
corries = { path = "$repo" }
ndarray = "0.15"
color-eyre = { version = "0.6", default-features = false }
[workspace]
EOF
cd "$dir" || exit 3
CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2> "$dir/log" || { tail -n 30 "$dir/log"; exit 3; }
mkdir "$dir/run" && cd "$dir/run" || exit 3
timeout 100 "$dir/target/debug/demo"
rc=$?
cd /
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def reset():
    sh('git -C %s checkout -q -- .' % W)


def tests():
    open(W + '_env.sh', 'w').write(open('/opt/vp/env.sh').read().replace('/repo', W))
    s = open('/opt/vp/test.sh').read().replace('/repo', W).replace('/opt/vp/env.sh', W + '_env.sh')
    open(W + '_test.sh', 'w').write(s)
    r = sh('cd %s && . %s_env.sh; cargo test --workspace --all-targets --no-run --locked --offline' % (W, W))
    if r.returncode:
        return 'BUILD ' + r.stderr[-3000:]
    sh('cd %s && bash %s_test.sh %s_out.json' % (W, W, W))
    base = json.load(open('/opt/vp/BASELINE.json'))
    d = json.load(open(W + '_out.json'))
    def names(x):
        for k in ('passed', 'stable'):
            if k in x:
                return set(x[k] if not isinstance(x[k], dict) else [a for a, b in x[k].items() if b in ('pass', 'passed', True)])
        raise SystemExit(str(x)[:500])
    missing = names(base) - names(d)
    return ('TESTS FAIL ' + str(missing)) if missing else None


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    if not os.path.isdir(W):
        sh('cp -a /repo %s' % W)
    sh('git -C %s fetch -q /repo master 2>/dev/null; git -C %s checkout -q -f $(git -C /repo rev-parse HEAD)' % (W, W))
    reset()
    d = os.path.join(SEED, spec['ID'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in spec['EDITS']:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
    open(d + '/main.rs', 'w').write(spec['MAIN'])
    shutil.copy('/tmp/demo.lock', d + '/lock')
    open(d + '/demo.sh', 'w').write(DEMO)
    json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    bad = []
    try:
        t = tests()
        if t:
            bad.append(t)
        else:
            r = sh('cd %s && bash %s/demo.sh' % (W, d))
            print('  demo with the bug: rc', r.returncode, (r.stdout + r.stderr).strip()[-300:].replace('\n', ' | '))
            if r.returncode in (0, 3):
                bad.append('demo does not fail')
            reset()
            r = sh('cd %s && bash %s/demo.sh' % (W, d))
            if r.returncode:
                bad.append('demo fails without the bug: %d %s' % (r.returncode, (r.stdout + r.stderr)[-1500:]))
            sh('git -C %s apply %s/patch.diff' % (W, d))
        if not bad or '-f' in sys.argv:
            for c in spec.get('CHECKS', [spec['PROP']]):
                t0 = time.time()
                env = dict(os.environ, VH_REPO=W, VH_BUILD=W + '_build', VERIF_TIER='quick', VERIF_SEED='1')
                r = sh('cd %s && python3-vt run.py %s' % (os.path.dirname(SEED), c), env=env)
                out = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
                print('  check', c, 'rc', r.returncode, '%.0f s' % (time.time() - t0), '|'.join(out[-3:])[:400])
    finally:
        reset()
    print(spec['ID'], 'INVALID ' + '; '.join(bad) if bad else 'valid')


main()
