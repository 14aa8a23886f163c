import json, os, subprocess, sys, textwrap
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS
OUT = '/verif/seeded'

RS = '''#!/bin/bash
# Runs demo.rs against the doctor-syn crate of the current directory.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/" || exit 2
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ndoctor-syn = { path = "%s/doctor-syn" }\\n' "$repo" > "$t/Cargo.toml"
cd "$t" && timeout 200 cargo run --offline --quiet
'''
GEN = '''#!/bin/bash
# Generates functions with libmgen, appends demo.rs to them and runs the result.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen %(args)s > "$t/gen.rs" || exit 2
cat "$here/demo.rs" >> "$t/gen.rs"
rustc --edition 2021 -A warnings -O -o "$t/demo" "$t/gen.rs" || exit 2
timeout 60 "$t/demo"
'''
only = sys.argv[1:]
for p in PLANTS:
    if only and p['id'] not in only:
        continue
    d = os.path.join(OUT, p['id'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/plants/wt'
    subprocess.check_call(['bash', '-c', 'rm -rf %s && git clone -q /repo %s' % (w, w)])
    for path, old, new in p['edits']:
        f = os.path.join(w, path)
        s = open(f).read()
        n = s.count(old)
        assert n == 1, (p['id'], path, old, n)
        open(f, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=w).decode()
    # Only lines of the original repository are changed.
    for path, _, _ in p['edits']:
        bl = subprocess.check_output(['git', 'blame', '-s', '-b', '--root', path, 'HEAD'], cwd=w).decode().splitlines() if 0 else \
            subprocess.check_output(['git', 'blame', '-s', 'HEAD', '--', path], cwd=w).decode().splitlines()
        dd = subprocess.check_output(['git', 'diff', '-U0', '--', path], cwd=w).decode()
        import re
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
            a, c = int(m[1]), int(m[2] or 1)
            if c == 0:
                print(p['id'], 'pure insertion at', path, a)
            for i in range(a, a + c):
                if not bl[i - 1].startswith('^f4633ec'):
                    print(p['id'], 'NOT ORIGINAL', path, bl[i - 1])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if 'rs' in p:
        sh = RS
        open(os.path.join(d, 'demo.rs'), 'w').write(textwrap.dedent(p['rs']).lstrip('\n'))
    elif 'gen' in p:
        sh = GEN % {'args': p['gen'][0]}
        open(os.path.join(d, 'demo.rs'), 'w').write('\n' + textwrap.dedent(p['gen'][1]).lstrip('\n'))
    else:
        sh = textwrap.dedent(p['sh']).lstrip('\n')
        for name, text in p.get('files', {}).items():
            open(os.path.join(d, name), 'w').write(textwrap.dedent(text).lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(p['id'], 'written')
